// C10: bit fields of the RTCM library against a bit-by-bit reference
#include "mc.hpp"
#include <memory>
extern "C" {
#include <rtcm3/bits.h>
}
using namespace mc;
typedef unsigned __int128 u128;
static const size_t PADB = 0;
static int getb(const Bytes &b, size_t i) { return b[i / 8] >> (7 - i % 8) & 1; }
static void putb(Bytes &b, size_t i, int v) { uint8_t m = (uint8_t)(0x80 >> (i % 8)); if (v) b[i / 8] |= m; else b[i / 8] &= (uint8_t)~m; }
static uint64_t rd(const Bytes &b, size_t pos, int w) { uint64_t v = 0; for (int i = 0; i < w; i++) v = v << 1 | (uint64_t)getb(b, pos + i); return v; }
static void wr(Bytes &b, size_t pos, int w, uint64_t v) { for (int i = 0; i < w; i++) putb(b, pos + i, (int)(v >> (w - 1 - i) & 1)); }
static int64_t sext(uint64_t v, int w) { return w < 64 && (v >> (w - 1) & 1) ? (int64_t)(v | ~0ull << w) : (int64_t)v; }
static std::vector<uint64_t> values(int w) {
  std::vector<uint64_t> v; uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1;
  if (w <= 8) { for (uint64_t x = 0; x <= m; x++) v.push_back(x); return v; }
  for (int i = 0; i < w; i++) { v.push_back(1ull << i); v.push_back(m & ~(1ull << i)); v.push_back((1ull << i) - 1); v.push_back(m & ~((1ull << i) - 1)); }
  for (uint64_t x : {0x5555555555555555ull, 0xAAAAAAAAAAAAAAAAull, 0x0123456789ABCDEFull, 0xFEDCBA9876543210ull}) v.push_back(x & m);
  v.push_back(0); v.push_back(m);
  return v;
}
static uint8_t bg(uint32_t pat, size_t i) { return pat == 0 ? 0 : pat == 1 ? 0xFF : pat == 2 ? (uint8_t)(0x5A + i * 29) : (uint8_t)~(0x5A + i * 29); }
// exactly the bytes the field touches are allocated, so any access beyond them faults
struct Exact { std::unique_ptr<uint8_t[]> p; size_t n; Exact(const Bytes &b, size_t n_) : p(new uint8_t[n_]), n(n_) { memcpy(p.get(), b.data(), n); } };
static void fields(Ctx &c) {
  int w = 1 + (int)c.choose(64, "width"); size_t pos = c.choose(c.thorough ? 72 : 24, "offset"); uint32_t pat = c.choose(4, "background");
  size_t nb = (pos + w + 7) / 8; Bytes base(nb); for (size_t i = 0; i < nb; i++) base[i] = bg(pat, i);
  c.at("width %d", w);
  auto judge = [&](const char *what, const Exact &e, const Bytes &want, uint64_t v) {
    CHK(c, !memcmp(e.p.get(), want.data(), nb), "%s(pos %zu, len %d, %llx) on %s wrote %s instead of %s", what, pos, w, (unsigned long long)v, hex(base).c_str(), hex(e.p.get(), nb).c_str(), hex(want).c_str());
  };
  uint64_t hs = 0;
  for (uint64_t v : values(w)) {
    Bytes want = base; wr(want, pos, w, v); c.step(); c.traced();
    // readers
    Exact r(want, nb); int64_t sv = sext(v, w);
    uint64_t gl = rtcm_getbitul(r.p.get(), (uint32_t)pos, (uint8_t)w);
    CHK(c, gl == v, "getbitul(pos %zu, len %d) = %llx, the bits hold %llx", pos, w, (unsigned long long)gl, (unsigned long long)v);
    int64_t gsl = rtcm_getbitsl(r.p.get(), (uint32_t)pos, (uint8_t)w);
    CHK(c, gsl == sv, "getbitsl(pos %zu, len %d) = %lld, the bits hold %lld", pos, w, (long long)gsl, (long long)sv);
    hs = mix(hs, gl);
    if (w <= 32) {
      uint32_t g = rtcm_getbitu(r.p.get(), (uint32_t)pos, (uint8_t)w); int32_t gs = rtcm_getbits(r.p.get(), (uint32_t)pos, (uint8_t)w);
      CHK(c, g == v, "getbitu(pos %zu, len %d) = %x, the bits hold %llx", pos, w, g, (unsigned long long)v);
      CHK(c, gs == (int32_t)sv, "getbits(pos %zu, len %d) = %d, the bits hold %lld", pos, w, gs, (long long)sv);
      if (w >= 2) {
        int64_t mag = (int64_t)(v & ((1ull << (w - 1)) - 1)), sm = (v >> (w - 1)) ? -mag : mag;
        int32_t gm = rtcm_get_sign_magnitude_bit(r.p.get(), (uint32_t)pos, (uint8_t)w);
        CHK(c, gm == sm, "get_sign_magnitude_bit(pos %zu, len %d) = %d, the bits hold %lld", pos, w, gm, (long long)sm);
        swiftnav_bitstream_t bs; swiftnav_bitstream_init(&bs, r.p.get(), (uint32_t)(pos + w)); swiftnav_bitstream_remove(&bs, (uint32_t)pos);
        int32_t o = 12345; rtcm3_rc rc = rtcm_get_sign_magnitude_bitstream(&bs, (uint8_t)w, &o);
        CHK(c, rc == RC_OK && o == sm, "get_sign_magnitude_bitstream(pos %zu, len %d) = %d (rc %d), the bits hold %lld", pos, w, o, (int)rc, (long long)sm);
        // one bit short: refused
        swiftnav_bitstream_init(&bs, r.p.get(), (uint32_t)(pos + w - 1)); swiftnav_bitstream_remove(&bs, (uint32_t)pos);
        rc = rtcm_get_sign_magnitude_bitstream(&bs, (uint8_t)w, &o);
        CHK(c, rc != RC_OK, "get_sign_magnitude_bitstream of %d bits with %d left succeeds", w, w - 1);
        Exact e(base, nb); Bytes wm = base; wr(wm, pos, w, (sm < 0 ? 1ull << (w - 1) : 0) | (uint64_t)mag);
        rtcm_set_sign_magnitude_bit(e.p.get(), (uint32_t)pos, (uint8_t)w, sm); judge("set_sign_magnitude_bit", e, wm, (uint64_t)sm);
      }
      { Exact e(base, nb); rtcm_setbitu(e.p.get(), (uint32_t)pos, (uint32_t)w, (uint32_t)v); judge("setbitu", e, want, v); }
      { Exact e(base, nb); rtcm_setbits(e.p.get(), (uint32_t)pos, (uint32_t)w, (int32_t)sv); judge("setbits", e, want, (uint64_t)sv); }
      // bits of the value above the field width do not reach the buffer
      if (w < 32) { Exact e(base, nb); rtcm_setbitu(e.p.get(), (uint32_t)pos, (uint32_t)w, (uint32_t)v | ~0u << w); judge("setbitu (wide value)", e, want, v); }
    }
    { Exact e(base, nb); rtcm_setbitul(e.p.get(), (uint32_t)pos, (uint32_t)w, v); judge("setbitul", e, want, v); }
    { Exact e(base, nb); rtcm_setbitsl(e.p.get(), (uint32_t)pos, (uint32_t)w, sv); judge("setbitsl", e, want, (uint64_t)sv); }
    if (w < 64) { Exact e(base, nb); rtcm_setbitul(e.p.get(), (uint32_t)pos, (uint32_t)w, v | ~0ull << w); judge("setbitul (wide value)", e, want, v); }
  }
  c.state(hs);
}
// every sequence of three writes of adjacent or overlapping fields equals the same writes on the reference
static void sequences(Ctx &c) {
  static const int W[] = {1, 3, 8, 14, 24, 32}; static const uint64_t V[] = {0, ~0ull, 0x9B3C5A7Dull};
  int ops = 3; Bytes ref(16, 0xA5), real = ref; std::string trace;
  for (int k = 0; k < ops; k++) {
    size_t pos = (size_t[]){0, 5, 7, 8, 13, 24, 31}[c.choose(7, "pos")]; int w = W[c.choose(6, "width")]; uint64_t v = V[c.choose(3, "value")];
    uint32_t how = (uint32_t)((pos + w + k) % 4); wr(ref, pos, w, v & ((1ull << w) - 1));
    uint8_t *p = real.data();
    if (how == 0) rtcm_setbitu(p, (uint32_t)pos, (uint32_t)w, (uint32_t)v); else if (how == 1) rtcm_setbits(p, (uint32_t)pos, (uint32_t)w, (int32_t)v);
    else if (how == 2) rtcm_setbitul(p, (uint32_t)pos, (uint32_t)w, v); else rtcm_setbitsl(p, (uint32_t)pos, (uint32_t)w, (int64_t)v);
    trace += fmt(" [%zu+%d=%llx]", pos, w, (unsigned long long)v); c.step();
    CHK(c, ref == real, "after%s the buffer is %s, expected %s", trace.c_str(), hex(real).c_str(), hex(ref).c_str());
    for (size_t q = 0; q < 96; q += 5) CHK(c, rtcm_getbitu(p, (uint32_t)q, 27) == rd(ref, q, 27), "after%s reading 27 bits at %zu", trace.c_str(), q);
  }
  c.traced(); c.state(hash_bytes(real.data(), real.size()));
}
// widths outside the documented range write nothing
static void outside(Ctx &c) {
  size_t pos = c.choose(16, "pos"); uint32_t l = c.choose(4, "len"); Bytes b(24, 0x3C), z = b; bool w64 = l >= 2;
  if (l == 0) rtcm_setbitu(b.data(), (uint32_t)pos, 0, 0xFFFFFFFF); else if (l == 1) rtcm_setbitu(b.data(), (uint32_t)pos, 33, 0xFFFFFFFF);
  else if (l == 2) rtcm_setbitul(b.data(), (uint32_t)pos, 0, ~0ull); else rtcm_setbitul(b.data(), (uint32_t)pos, 65, ~0ull);
  CHK(c, b == z, "a field of %s bits at %zu changed the buffer", l == 0 || l == 2 ? "0" : w64 ? "65" : "33", pos); c.step(); c.state(l);
}
int main(int argc, char **argv) {
  Spec s; s.property = "C10";
  s.rule = "every width 1..64, bit offset 0..23 (0..71 thorough), four backgrounds, every value up to 8 bits and walking/boundary values above, through every reader and writer; every sequence of three writes over 7 offsets x 6 widths x 3 values; compared bit by bit with a reference, buffers sized exactly";
  s.assumptions = {"values wider than 8 bits are boundary and walking-bit patterns"};
  s.scenarios = {{"fields", fields}, {"sequences", sequences}, {"outside", outside}};
  return run(argc, argv, s);
}
