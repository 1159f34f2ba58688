// C05: decoders are total
#include "rtcmref.hpp"
using namespace mc; using namespace rtcmref;
static std::vector<Shape> SH;
struct Dec { const char *name; size_t size; std::function<rtcm3_rc(swiftnav_bitstream_t *, void *)> f; std::function<bool(int)> takes; };
static std::vector<Dec> DECS;
static void make_decs() {
#define A(fn, T, pred) DECS.push_back({#fn, sizeof(T), [](swiftnav_bitstream_t *b, void *p) { return fn(b, (T *)p); }, [](int n) { return pred; }})
  A(rtcm3_decode_1001_bitstream, rtcm_obs_message, n == 1001); A(rtcm3_decode_1002_bitstream, rtcm_obs_message, n == 1002); A(rtcm3_decode_1003_bitstream, rtcm_obs_message, n == 1003); A(rtcm3_decode_1004_bitstream, rtcm_obs_message, n == 1004);
  A(rtcm3_decode_1005_bitstream, rtcm_msg_1005, n == 1005); A(rtcm3_decode_1006_bitstream, rtcm_msg_1006, n == 1006); A(rtcm3_decode_1007_bitstream, rtcm_msg_1007, n == 1007); A(rtcm3_decode_1008_bitstream, rtcm_msg_1008, n == 1008);
  A(rtcm3_decode_1010_bitstream, rtcm_obs_message, n == 1010); A(rtcm3_decode_1012_bitstream, rtcm_obs_message, n == 1012); A(rtcm3_decode_1029_bitstream, rtcm_msg_1029, n == 1029); A(rtcm3_decode_1033_bitstream, rtcm_msg_1033, n == 1033); A(rtcm3_decode_1230_bitstream, rtcm_msg_1230, n == 1230);
  A(rtcm3_decode_msm4_bitstream, rtcm_msm_message, msmref::kind(n) == 4); A(rtcm3_decode_msm5_bitstream, rtcm_msm_message, msmref::kind(n) == 5); A(rtcm3_decode_msm6_bitstream, rtcm_msm_message, msmref::kind(n) == 6); A(rtcm3_decode_msm7_bitstream, rtcm_msm_message, msmref::kind(n) == 7);
  A(rtcm3_decode_4062_bitstream, rtcm_msg_swift_proprietary, n == 4062); A(rtcm3_decode_4075_bitstream, rtcm_msg_ndf, n == 4075);
  A(rtcm3_decode_gps_eph_bitstream, rtcm_msg_eph, n == 1019); A(rtcm3_decode_glo_eph_bitstream, rtcm_msg_eph, n == 1020); A(rtcm3_decode_bds_eph_bitstream, rtcm_msg_eph, n == 1042); A(rtcm3_decode_qzss_eph_bitstream, rtcm_msg_eph, n == 1044); A(rtcm3_decode_gal_eph_fnav_bitstream, rtcm_msg_eph, n == 1045); A(rtcm3_decode_gal_eph_inav_bitstream, rtcm_msg_eph, n == 1046);
  auto is = [](int n, int w) { for (int c = 0; c < 6; c++) if (ssr_number(c, w) == n && n) return true; return false; };
  static auto IS = is;
  A(rtcm3_decode_orbit_bitstream, rtcm_msg_orbit, IS(n, ORBIT)); A(rtcm3_decode_clock_bitstream, rtcm_msg_clock, IS(n, CLOCK)); A(rtcm3_decode_orbit_clock_bitstream, rtcm_msg_orbit_clock, IS(n, COMBINED)); A(rtcm3_decode_code_bias_bitstream, rtcm_msg_code_bias, IS(n, CODE)); A(rtcm3_decode_phase_bias_bitstream, rtcm_msg_phase_bias, IS(n, PHASE));
}
// how many bits the message declares, reading counts from its own bits; SIZE_MAX once a count lies beyond the end
struct Rd { const Bytes &b; size_t nbits, pos = 0; bool bad = false; uint64_t u(int w) { if (pos + (size_t)w > nbits) { bad = true; pos += (size_t)w; return 0; } uint64_t v = 0; for (int i = 0; i < w; i++, pos++) v = v << 1 | (b[pos / 8] >> (7 - pos % 8) & 1); return v; } };
static size_t declared(const Bytes &b, size_t nbits) {
  Rd r{b, nbits}; int n = (int)r.u(12); if (r.bad) return SIZE_MAX;
  auto txt = [&] { size_t k = r.u(8); r.pos += 8 * k; };
  int k = msmref::kind(n);
  if (k >= 4) {
    r.pos += 12 + 30 + 1 + 3 + 7 + 2 + 2 + 1 + 3; uint64_t sm = r.u(64), gm = r.u(32); int ns = __builtin_popcountll(sm), ng = __builtin_popcountll(gm), nc = 0; for (int i = 0; i < ns * ng; i++) nc += (int)r.u(1);
    msmref::W w = msmref::widths(k); r.pos += (size_t)ns * (18 + (w.ext ? 18 : 0)) + (size_t)nc * (size_t)(w.pr + w.cp + w.lock + 1 + w.cnr + w.rate); return r.bad ? SIZE_MAX : r.pos;
  }
  for (int c = 0; c < 6; c++) for (int w = 0; w < 5; w++) {
    if (ssr_number(c, w) != n || !n) continue;
    r.pos += (c == 2 ? 17 : 20) + 4 + 1 + (w == ORBIT || w == COMBINED) + 4 + 16 + 4 + (w == PHASE ? 2 : 0); int ns = (int)r.u(6), idw = c == 2 ? 5 : c == 4 ? 4 : 6;
    int io = c == 5 ? 10 : c == 3 ? 18 : c == 1 ? 33 : 8;
    for (int i = 0; i < ns && !r.bad; i++) {
      r.pos += (size_t)idw;
      if (w == ORBIT || w == COMBINED) r.pos += (size_t)io + 22 + 20 + 20 + 21 + 19 + 19;
      if (w == CLOCK || w == COMBINED) r.pos += 22 + 21 + 27;
      if (w == CODE) { size_t k2 = r.u(5); r.pos += 19 * k2; }
      if (w == PHASE) { size_t k2 = r.u(5); r.pos += 17 + 32 * k2; }
    }
    return r.bad ? SIZE_MAX : r.pos;
  }
  switch (n) {
    case 1001: case 1002: case 1003: case 1004: { r.pos += 12 + 30 + 1; size_t s = r.u(5); r.pos += 4 + s * (n == 1001 ? 58 : n == 1002 ? 74 : n == 1003 ? 101 : 125); break; }
    case 1010: case 1012: { r.pos += 12 + 27 + 1; size_t s = r.u(5); r.pos += 4 + s * (n == 1010 ? 79 : 130); break; }
    case 1005: r.pos = 152; break; case 1006: r.pos = 168; break;
    case 1007: r.pos += 12; txt(); r.pos += 8; break; case 1008: r.pos += 12; txt(); r.pos += 8; txt(); break;
    case 1029: { r.pos += 12 + 16 + 17 + 7; txt(); break; }
    case 1033: r.pos += 12; txt(); r.pos += 8; txt(); txt(); txt(); txt(); break;
    case 1230: { r.pos += 12 + 1 + 3; size_t m = r.u(4); r.pos += 16 * (size_t)__builtin_popcountll(m); break; }
    case 4062: r.pos += 4 + 16 + 16; txt(); break;
    case 4075: { r.pos += 12 + 2; size_t f = r.u(6); for (size_t i = 0; i < f && !r.bad; i++) { r.pos += 4 + 6 + 4 + 5 + 30 + 1; size_t z = r.u(12); r.pos += z; } break; }
    case 1019: r.pos = 488; break; case 1044: r.pos = 485; break; case 1042: r.pos = 511; break; case 1045: r.pos = 496; break; case 1046: r.pos = 504; break;
    case 1020: { r.pos = 281; if (r.u(1)) r.pos += 78; break; }
    default: return SIZE_MAX;
  }
  return r.bad ? SIZE_MAX : r.pos;
}
static int number_of(const Bytes &b, size_t nbits) { Rd r{b, nbits}; int n = (int)r.u(12); return r.bad ? -1 : n; }
static void one(Ctx &c, const Dec &d, const Bytes &b, size_t nbits, const char *what, int fill = 0xB7) {
  std::unique_ptr<uint8_t[]> mem(new uint8_t[d.size]); memset(mem.get(), fill, d.size);   // what the result held before
  c.at("%s on %s", d.name, what); c.step(); c.traced();
  rtcm3_rc rc = with_exact(b.data(), (nbits + 7) / 8, nbits, [&](swiftnav_bitstream_t *bs) { return d.f(bs, mem.get()); });
  CHK(c, rc == RC_OK || rc == RC_MESSAGE_TYPE_MISMATCH || rc == RC_INVALID_MESSAGE, "%s on %s returns %d", d.name, what, (int)rc);
  int n = number_of(b, nbits);
  // the combined orbit and clock decoder is never handed an orbit message
  bool takes = n >= 0 && d.takes(n);
  if (rc == RC_OK && !takes && !(strstr(d.name, "orbit_clock") && n >= 0 && DECS[25].takes(n))) c.check(false, "%s accepts message %d (%s)", d.name, n, what);
  if (rc == RC_OK && takes) { size_t need = declared(b, nbits); CHK(c, need <= nbits, "%s accepts %s: %zu bits, the message declares %zd", d.name, what, nbits, (ssize_t)need); }
  c.state(mix(hash_str(d.name), (uint64_t)(rc + 8)));
}
static const Dec &own(const Shape &s) { for (auto &d : DECS) if (d.takes(s.num)) return d; abort(); }
// every truncation, to the bit, of every message
static void truncate(Ctx &c) {
  const Shape &s = SH[c.choose((uint32_t)SH.size(), "shape")]; const Dec &d = own(s); Bytes b = s.bytes(s.defaults()); size_t need = declared(b, s.bits()), all = s.bits();
  std::unique_ptr<uint8_t[]> mem(new uint8_t[d.size]);
  uint32_t part = c.choose(16, "part");
  for (size_t n = part; n <= all; n += 16) {
    for (int fill : {0xB7, 0, 1}) one(c, d, b, n, fmt("%s cut to %zu of %zu bits, into bytes %02x", s.name.c_str(), n, all, fill).c_str(), fill);
    if (n < need) continue;
    rtcm3_rc rc = with_exact(b.data(), (n + 7) / 8, n, [&](swiftnav_bitstream_t *bs) { return d.f(bs, mem.get()); });
    CHK(c, rc == RC_OK, "%s with all of its %zu bits is refused (%d)", s.name.c_str(), need, (int)rc);
  }
}
// every decoder on every message
static void cross(Ctx &c) {
  const Shape &s = SH[c.choose((uint32_t)SH.size(), "shape")]; Bytes b = s.bytes(s.defaults());
  for (auto &d : DECS) { one(c, d, b, s.bits(), s.name.c_str()); Bytes z = b; z.resize(z.size() + 40, 0xFF); one(c, d, z, z.size() * 8, fmt("%s and 40 more bytes", s.name.c_str()).c_str()); }
}
// corrupted bits: one anywhere, two (three thorough) within the first part, cut at the end of the original message or shorter
static void corrupt(Ctx &c) {
  const Shape &s = SH[c.choose((uint32_t)SH.size(), "shape")]; const Dec &d = own(s); Bytes b = s.bytes(s.defaults()); size_t all = s.bits();
  uint32_t i = c.choose((uint32_t)all, "bit"); Bytes q = b; q[i / 8] ^= (uint8_t)(0x80 >> (i % 8));
  one(c, d, q, all, fmt("%s with bit %u flipped", s.name.c_str(), i).c_str()); one(c, d, q, (all / 2) | 3, fmt("%s with bit %u flipped, cut in half", s.name.c_str(), i).c_str());
  size_t lim = std::min<size_t>(all, c.thorough ? 400 : 230);
  if (i >= lim || i < 12) return;
  for (size_t j = i + 1; j < lim; j++) { Bytes z = q; z[j / 8] ^= (uint8_t)(0x80 >> (j % 8)); one(c, d, z, all, fmt("%s with bits %u and %zu flipped", s.name.c_str(), i, j).c_str()); }
}
// counts driven to every value
static void counts(Ctx &c) {
  const Shape &s = SH[c.choose((uint32_t)SH.size(), "shape")]; uint32_t fi = c.choose((uint32_t)s.f.size(), "field"); const Dec &d = own(s); const Field &x = s.f[fi];
  if (!x.fixed || x.w == 1 || fi == 0) return;
  Bytes tail((size_t)(c.choose(3, "tail") * 480), 0xFF); uint32_t bg = c.choose(2, "tail byte"); if (bg) for (auto &t : tail) t = 0;
  for (uint64_t v = 0; v < 1ull << x.w; v++) {
    Raw r = s.defaults(); r[fi] = (int64_t)v; Bytes b = s.bytes(r); size_t n = s.bits(); append(b, tail); if (!tail.empty()) n = b.size() * 8;
    one(c, d, b, n, fmt("%s with %s = %llu and %zu more bytes", s.name.c_str(), x.name.c_str(), (unsigned long long)v, tail.size()).c_str());
  }
}
// any number followed by constant bytes of any length
static void plain(Ctx &c) {
  const Dec &d = DECS[c.choose((uint32_t)DECS.size(), "decoder")]; uint32_t pat = c.choose(6, "pattern"); static const uint8_t P[] = {0x00, 0xFF, 0x55, 0xAA, 0x01, 0x80};
  for (int num = 0; num < 4096; num++) {
    bool mine = d.takes(num); if (!mine && num % 64 && !c.thorough) continue;
    for (size_t len = 0; len <= 1029; len += mine ? (len < 200 ? 1 : 13) : 97) {
      BitW b; b.u(12, (uint64_t)num); for (int i = 0; i < 4; i++) b.u(1, P[pat] >> (7 - i) & 1); Bytes q = b.b; q.resize(std::max<size_t>(len, 2), P[pat]); q.resize(len);
      one(c, d, q, len * 8, fmt("message %d of %zu bytes %02x", num, len, P[pat]).c_str());
    }
  }
}
int main(int argc, char **argv) {
  make_decs(); SH = other_shapes(); for (auto &s : ssr_shapes()) SH.push_back(s); for (auto &s : msm_shapes(true)) SH.push_back(s);
  Spec s; s.property = "C05";
  s.rule = "every message shape cut to every number of bits, into results holding three different patterns; every decoder on every message, alone and followed by junk; every single flipped bit and every two flipped bits of the first 230 (400 thorough); every value of every count field with and without more data; every own number followed by constant bytes of 0..1029 bytes; payload and result allocated exactly";
  s.assumptions = {"the combined orbit-and-clock decoder is not handed orbit-only messages (callers dispatch on the number)"};
  s.scenarios = {{"truncate", truncate}, {"cross", cross}, {"corrupt", corrupt}, {"counts", counts}, {"plain", plain}};
  return run(argc, argv, s);
}
