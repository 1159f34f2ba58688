// C23: u-blox messages decode exactly, re-encode identically, and refuse wrong lengths.
#include "ubxref.hpp"
using namespace mc;
using namespace ubxref;
static const std::vector<Shape> &shapes() {
  static std::vector<Shape> v; if (v.empty()) {
    v = fixed_shapes();
    for (int n : {0, 1, 2, 3}) { v.push_back(rxm_rawx(n)); v.push_back(nav_sat(n)); v.push_back(esf_raw(n)); v.push_back(esf_meas(n, 0)); v.push_back(esf_meas(n, 8)); v.push_back(esf_meas(n, 0x7F7)); v.push_back(esf_meas(n, 0x7FF)); }
    for (int n : {0, 1, 2, 8, 9, 10}) v.push_back(rxm_sfrbx(n));
  }
  return v;
}
static void judge(Ctx &c, const Shape &s, const Raw &r, const char *how) {
  Bytes b = s.bytes(r); c.step(); c.traced(1); c.state(hash_bytes(b.data(), b.size()));
  for (uint8_t fill : {0xA5, 0x5A}) {
    Object o(s, b.data(), b.size(), fill);
    CHK(c, o.rc == RC_OK, "%s, %s: refused with %d", s.name.c_str(), how, (int)o.rc);
    for (size_t i = 0; i < s.f.size(); i++) {
      uint64_t got = s.f[i].get(o.get()), want = Shape::extended(s.f[i], r[i]);
      CHK(c, got == want, "%s, %s: %s reported as %llx, the bytes at %zu say %llx", s.name.c_str(), how, s.f[i].name.c_str(), (unsigned long long)got, s.f[i].off, (unsigned long long)want);
    }
    Bytes again(b.size(), fill); std::unique_ptr<uint8_t[]> q(new uint8_t[b.size()]); memset(q.get(), fill, b.size());
    uint16_t n = s.enc(o.get(), q.get());
    CHK(c, n == b.size(), "%s, %s: re-encoding gives %u bytes, the message has %zu", s.name.c_str(), how, n, b.size());
    again.assign(q.get(), q.get() + b.size());
    if (again != b) { size_t i = 0; while (again[i] == b[i]) i++; c.fail("", "%s, %s: byte %zu re-encoded as %02x, it was %02x", s.name.c_str(), how, i, again[i], b[i]); }
  }
}
static std::vector<uint64_t> values(int w, char t, bool wide) {
  std::vector<uint64_t> v; int n = 8 * w;
  if (w == 1 && wide) { for (unsigned i = 0; i < 256; i++) v.push_back(i); return v; }
  uint64_t all = n == 64 ? ~0ull : (1ull << n) - 1;
  v = {0, 1, all, all - 1, all >> 1, (all >> 1) + 1};
  if (wide) for (int i = 1; i < n; i++) { v.push_back(1ull << i); v.push_back(all & ~(1ull << i)); v.push_back((1ull << i) - 1); }
  if (t == 'R') { double d[] = {0.1, -1.5, 1e300, -INFINITY, NAN}; for (double x : d) { uint64_t u = 0; if (w == 8) memcpy(&u, &x, 8); else { float y = (float)x; memcpy(&u, &y, 4); } v.push_back(u); } }
  return v;
}
static void fields(Ctx &c) {
  auto &all = shapes(); const Shape &s = all[(size_t)c.choose((int)all.size(), "message")];
  Raw r = s.pattern((unsigned)c.choose(4, "background")); int nf = (int)s.f.size();
  for (int k = 0; k < 2; k++) {
    int i = c.dev(nf + 1, k ? "second field" : "field"); if (!i) break;
    const Field &x = s.f[(size_t)i - 1]; if (x.fixed) return;
    auto v = values(x.w, x.t, k == 0 && c.thorough ? true : k == 0); r[(size_t)i - 1] = v[(size_t)c.choose((int)v.size(), "value")];
  }
  judge(c, s, r, "fields");
}
static void counts(Ctx &c) {
  int kind = c.choose(5, "kind"), n = c.choose(256, "count"); unsigned bg = 2 + (unsigned)c.choose(2, "background");
  if (kind == 0) { Shape s = rxm_rawx(n); judge(c, s, s.pattern(bg), "count"); return; }
  if (kind == 3) { if (n >= 32) return; for (unsigned low = 0; low < 2048; low++) { Shape s = esf_meas(n, low); judge(c, s, s.pattern(bg), "count"); } return; }
  if (kind == 4) {
    if (n <= ESF_DATA_MAX_COUNT) { Shape s = esf_raw(n); judge(c, s, s.pattern(bg), "count"); }
    else {                                                   // more than the structure holds: nothing may be written outside it
      Bytes b = esf_raw(0).head((uint16_t)(4 + 8 * n)); b.resize(b.size() + 4 + 8 * (size_t)n, 0x3C); Shape s = esf_raw(0); Object o(s, b.data(), b.size());
      CHK(c, o.rc != RC_OK, "ESF-RAW with %d measurements accepted, the structure holds %d", n, ESF_DATA_MAX_COUNT);
    }
    return;
  }
  if (kind == 1) {
    if (n <= NAV_DATA_MAX_COUNT) { Shape s = nav_sat(n); judge(c, s, s.pattern(bg), "count"); return; }
    Shape s = nav_sat(NAV_DATA_MAX_COUNT); Raw r = s.pattern(bg); Bytes b = s.bytes(r); b[4 + 5] = (uint8_t)n; b.resize(4 + 8 + 12 * (size_t)n, 0x77); b[2] = (uint8_t)(b.size() - 4); b[3] = (uint8_t)((b.size() - 4) >> 8);
    Object o(s, b.data(), b.size()); if (o.rc != RC_OK) return;                   // refusing is as good as keeping the first hundred
    for (size_t i = 0; i < s.f.size(); i++) if (!s.f[i].fixed) CHK(c, s.f[i].get(o.get()) == Shape::extended(s.f[i], r[i]), "NAV-SAT with %d satellites: %s of the first hundred is wrong", n, s.f[i].name.c_str());
    std::unique_ptr<uint8_t[]> q(new uint8_t[b.size()]); s.enc(o.get(), q.get());
    return;
  }
  if (n <= UBX_RXM_SFRBX_MAX_DATA_WORDS) { Shape s = rxm_sfrbx(n); judge(c, s, s.pattern(bg), "count"); return; }
  Shape s = rxm_sfrbx(0); Bytes b = s.bytes(s.pattern(bg)); b[8] = (uint8_t)n; b.resize(12 + 4 * (size_t)n, 0x3C); b[2] = (uint8_t)(b.size() - 4); b[3] = (uint8_t)((b.size() - 4) >> 8);
  Object o(s, b.data(), b.size()); CHK(c, o.rc != RC_OK, "RXM-SFRBX with %d words accepted, the structure holds %d", n, UBX_RXM_SFRBX_MAX_DATA_WORDS);
}
static void truncated(Ctx &c) {
  static std::vector<Shape> v; if (v.empty()) { v = shapes(); v.push_back(rxm_rawx(40)); v.push_back(rxm_rawx(255)); v.push_back(nav_sat(100)); v.push_back(esf_raw(128)); v.push_back(esf_meas(31, 8)); v.push_back(esf_meas(31, 0)); }
  const Shape &s = v[(size_t)c.choose((int)v.size(), "message")]; Raw r = s.pattern(2); Bytes b = s.bytes(r);
  int slices = 16, k = c.choose(slices, "slice");
  for (size_t n = (size_t)k; n < b.size(); n += (size_t)slices) { Object o(s, b.data(), n); c.step(); CHK(c, o.rc != RC_OK, "%s of %zu bytes accepted when only %zu are there", s.name.c_str(), b.size(), n); }
  // more bytes than the message needs: the message is still read
  Bytes more = b; more.resize(b.size() + (size_t)k * 3 + 1, 0xEE); Object o(s, more.data(), more.size()); CHK(c, o.rc == RC_OK, "%s followed by other bytes refused with %d", s.name.c_str(), (int)o.rc);
  for (size_t i = 0; i < s.f.size(); i++) CHK(c, s.f[i].get(o.get()) == Shape::extended(s.f[i], r[i]), "%s followed by other bytes: %s is wrong", s.name.c_str(), s.f[i].name.c_str());
}
static void kinds(Ctx &c) {
  auto &all = shapes(); const Shape &s = all[(size_t)c.choose((int)all.size(), "decoder")]; int cls = c.choose(256, "class");
  Bytes b = s.bytes(s.pattern(2)); b[0] = (uint8_t)cls;
  for (int id = 0; id < 256; id++) {
    b[1] = (uint8_t)id; Object o(s, b.data(), b.size()); c.step(); bool same = cls == s.cls && id == s.id;
    CHK(c, same ? o.rc == RC_OK : o.rc == RC_MESSAGE_TYPE_MISMATCH, "the decoder of %s returns %d for class %02x id %02x", s.name.c_str(), (int)o.rc, cls, id);
  }
}
// ESF-RAW takes its count from the length field alone
static void lengths(Ctx &c) {
  int hi = c.choose(256, "length, high byte"); Shape s = esf_raw(0);
  for (int lo = 0; lo < 256; lo++) {
    int len = hi << 8 | lo; size_t n = len < 4 ? 0 : (size_t)(len - 4) / 8; if (n > 400) n = 400;
    Bytes b = s.head((uint16_t)len); size_t room = (size_t)len; b.resize(4 + (room > 4000 ? 4000 : room), 0x19); Object o(s, b.data(), b.size()); c.step();
    if (len < 4) CHK(c, o.rc != RC_OK, "ESF-RAW with length %d accepted", len);
    else if (n > ESF_DATA_MAX_COUNT) CHK(c, o.rc != RC_OK, "ESF-RAW with length %d accepted, the structure holds %d measurements", len, ESF_DATA_MAX_COUNT);
    else CHK(c, o.rc == RC_OK, "ESF-RAW with length %d refused with %d", len, (int)o.rc);
  }
}
static void sums(Ctx &c) {
  int a = c.choose(256, "first byte");
  for (int b = 0; b < 256; b++) for (int n = 0; n <= 3; n++) {
    uint8_t p[3] = {(uint8_t)a, (uint8_t)b, (uint8_t)(a ^ b)}, out[3] = {0xCC, 0xCC, 0xCC}, x, y; std::unique_ptr<uint8_t[]> q(new uint8_t[n ? n : 1]); memcpy(q.get(), p, (size_t)n);
    ubx_checksum(q.get(), (size_t)n, out); checksum(p, (size_t)n, x, y); c.step();
    CHK(c, out[0] == x && out[1] == y && out[2] == 0xCC, "checksum of %d bytes %02x %02x is %02x %02x, right is %02x %02x", n, a, b, out[0], out[1], x, y);
  }
  Bytes l((size_t)(a * 16 + 5)); for (size_t i = 0; i < l.size(); i++) l[i] = (uint8_t)(i * 7 + (size_t)a); uint8_t out[2], x, y; ubx_checksum(l.data(), l.size(), out); checksum(l.data(), l.size(), x, y);
  CHK(c, out[0] == x && out[1] == y, "checksum of %zu bytes is %02x %02x, right is %02x %02x", l.size(), out[0], out[1], x, y);
}
int main(int argc, char **argv) {
  Spec s; s.property = "C23";
  s.rule = "every message kind decoded from an allocation of exactly its bytes; every field compared with the little-endian value at its documented offset, the decoded structure re-encoded into an allocation of exactly the message's size and compared byte by byte; every truncation, count, class, id and length";
  s.assumptions = {"field layouts from the u-blox interface description; structures preset with two different fills; at most 100 NAV-SAT satellites, 128 ESF-RAW measurements and 10 RXM-SFRBX words fit the structures"};
  s.scenarios = {{"fields", fields, 1, 2, false}, {"counts", counts, 0, 0, false}, {"truncated", truncated, 0, 0, false}, {"kinds", kinds, 0, 0, false}, {"lengths", lengths, 0, 0, false}, {"sums", sums, 0, 0, false}};
  return run(argc, argv, s);
}
