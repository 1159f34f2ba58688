// C28: iXCOM messages decode exactly, re-encode identically, and refuse wrong identifiers, checksums and lengths
#include "ixpipe.hpp"
using namespace mc; using namespace ix;
// ------------------------------------------------------------------ fields at their documented offsets
struct F { const char *name; size_t off; int w; };
struct Kind { const char *name; int id; size_t size; std::vector<F> f; };
static const std::vector<Kind> &kinds() {
  static const std::vector<Kind> v = {
    {"IMURAW", 0x00, 44, {{"frame counter", 2, 1}, {"trigger source", 3, 1}, {"week", 6, 2}, {"seconds", 8, 4}, {"microseconds", 12, 4}, {"acceleration x", 16, 4}, {"acceleration y", 20, 4}, {"acceleration z", 24, 4}, {"rate x", 28, 4}, {"rate y", 32, 4}, {"rate z", 36, 4}, {"global status", 40, 2}}},
    {"WHEELDATA", 0x16, 28, {{"frame counter", 2, 1}, {"trigger source", 3, 1}, {"week", 6, 2}, {"seconds", 8, 4}, {"microseconds", 12, 4}, {"speed", 16, 4}, {"ticks", 20, 4}, {"global status", 24, 2}}}};
  return v;
}
union Any { XCOMmsg_IMURAW imu; XCOMmsg_WHEELDATA wheel; uint8_t raw[64]; Any(int f = 0xA5) { memset(raw, f, sizeof raw); } };
static uint64_t get(const XCOMHeader &h, const XCOMFooter &f, size_t off, size_t size) {
  switch (off) { case 0: return h.sync; case 1: return h.msg_id; case 2: return h.frame_counter; case 3: return h.trigger_source; case 4: return h.msg_len; case 6: return h.gps_week; case 8: return h.gps_time_sec; case 12: return h.gps_time_usec; }
  return off == size - 4 ? f.global_status.value : f.crc16;
}
static uint64_t get(const Kind &k, const Any &a, size_t off) {
  if (off < 16 || off >= k.size - 4) return k.id ? get(a.wheel.header, a.wheel.footer, off, k.size) : get(a.imu.header, a.imu.footer, off, k.size);
  if (k.id) { float s = a.wheel.speed; int32_t t = a.wheel.ticks; return off == 16 ? fbits(s) : (uint32_t)t; }
  size_t i = (off - 16) / 4; float x; if (i < 3) { memcpy(&x, (const uint8_t *)&a.imu.acc[i], 4); } else { memcpy(&x, (const uint8_t *)&a.imu.omg[i - 3], 4); } return fbits(x);
}
static uint64_t rd(const Bytes &b, size_t o, int w) { uint64_t v = 0; for (int i = 0; i < w; i++) v |= (uint64_t)b[o + (size_t)i] << 8 * i; return v; }
static void wr(Bytes &b, size_t o, int w, uint64_t v) { for (int i = 0; i < w; i++) b[o + (size_t)i] = (uint8_t)(v >> 8 * i); }
static void seal(Bytes &b) { wr(b, b.size() - 2, 2, crc16(b.data(), b.size() - 2)); }
static Bytes blank(const Kind &k, int bg) { Bytes b(k.size); uint32_t r = 12345u * (uint32_t)bg + 1; for (auto &x : b) { r = r * 1664525u + 1013904223u; x = bg == 0 ? 0 : bg == 1 ? 0xFF : (uint8_t)(r >> 24); } b[0] = 0x7E; b[1] = (uint8_t)k.id; wr(b, 4, 2, k.size); return b; }
static int decode(const Kind &k, const Bytes &b, Any &a) { std::unique_ptr<uint8_t[]> q(new uint8_t[b.size()]); memcpy(q.get(), b.data(), b.size()); return k.id ? ixcom_decode_wheeldata(q.get(), &a.wheel) : ixcom_decode_imuraw(q.get(), &a.imu); }
static void judge(Ctx &c, const Kind &k, Bytes b, const char *how) {
  seal(b); const auto &F_ = k.f; c.traced(1); c.state(hash_bytes(b.data(), b.size()));
  for (int fill : {0xA5, 0x5A}) {
    Any a(fill); int rc = decode(k, b, a); CHK(c, rc == IXCOM_RC_OK, "%s, %s: refused with %d", k.name, how, rc);
    for (auto &f : F_) CHK(c, get(k, a, f.off) == rd(b, f.off, f.w), "%s, %s: %s decoded as %llx, the bytes at %zu say %llx", k.name, how, f.name, (unsigned long long)get(k, a, f.off), f.off, (unsigned long long)rd(b, f.off, f.w));
    static const F fixed[] = {{"sync", 0, 1}, {"message", 1, 1}, {"length", 4, 2}}; for (auto &f : fixed) CHK(c, get(k, a, f.off) == rd(b, f.off, f.w), "%s, %s: %s decoded as %llx", k.name, how, f.name, (unsigned long long)get(k, a, f.off));
    CHK(c, get(k, a, k.size - 2) == rd(b, k.size - 2, 2), "%s, %s: checksum decoded as %llx", k.name, how, (unsigned long long)get(k, a, k.size - 2));
    std::unique_ptr<uint8_t[]> q(new uint8_t[k.size]); memset(q.get(), fill, k.size); size_t n = k.id ? ixcom_encode_wheeldata(&a.wheel, q.get()) : ixcom_encode_imuraw(&a.imu, q.get());
    CHK(c, n == k.size, "%s, %s: encoding gives %zu bytes, the message has %zu", k.name, how, n, k.size);
    for (size_t i = 0; i < n; i++) CHK(c, q[i] == b[i], "%s, %s: byte %zu encoded as %02x, it was %02x", k.name, how, i, q[i], b[i]);
  }
}
static std::vector<uint64_t> values(int w, bool wide) {
  std::vector<uint64_t> v; int n = 8 * w; uint64_t all = n == 64 ? ~0ull : (1ull << n) - 1; v = {0, 1, all, all - 1, all >> 1, (all >> 1) + 1};
  if (w == 4) for (float x : {0.1f, -1.5f, 3e38f, INFINITY, -INFINITY, NAN}) v.push_back(fbits(x));
  if (wide) { if (w == 1) { v.clear(); for (uint64_t i = 0; i < 256; i++) v.push_back(i); } else for (int i = 0; i < n; i++) { v.push_back(1ull << i); v.push_back(all & ~(1ull << i)); v.push_back((1ull << i) - 1); } }
  return v;
}
static void fields(Ctx &c) {
  const Kind &k = kinds()[c.choose(2, "message")]; Bytes b = blank(k, c.choose(4, "background")); int nf = (int)k.f.size(); bool any = false;
  for (int i = 0; i < (c.thorough ? 3 : 2); i++) { int x = c.dev((uint32_t)nf + 1, "field"); if (!x) break; auto v = values(k.f[(size_t)x - 1].w, !any); any = true; wr(b, k.f[(size_t)x - 1].off, k.f[(size_t)x - 1].w, v[c.choose((uint32_t)v.size(), "value")]); }
  judge(c, k, b, "fields");
}
static void shorts(Ctx &c) {                                // every value of the two-byte fields, and of every two bytes of the others in thorough
  const Kind &k = kinds()[c.choose(2, "message")]; size_t o = c.thorough ? 6 + (size_t)c.choose((uint32_t)k.size - 9, "offset") : c.choose(2, "field") ? k.size - 4 : 6; int hi = c.choose(256, "high byte"); c.leaf();
  Bytes b = blank(k, 3); for (int lo = 0; lo < 256; lo += c.thorough && o != 6 && o != k.size - 4 ? 5 : 1) { wr(b, o, 2, (uint64_t)(hi << 8 | lo)); c.step(); judge(c, k, b, "two bytes"); }
}
// ------------------------------------------------------------------ refusals
static void refuse(Ctx &c, const Kind &k, const Bytes &b, const std::string &how) { Any a; int rc = decode(k, b, a); CHK(c, rc != IXCOM_RC_OK, "%s: %s is accepted", k.name, how.c_str()); c.traced(1); }
// two bytes at o that equal the checksum over the first n bytes, which include them
static void settle(Bytes &b, size_t o, size_t n) {
  wr(b, o, 2, 0); uint32_t base = crc16(b.data(), n), row[16], val[16]; for (int i = 0; i < 16; i++) { wr(b, o, 2, 1u << i); row[i] = (crc16(b.data(), n) ^ base) ^ (1u << i); val[i] = 1u << i; }
  uint32_t want = base, x = 0; for (int bit = 0; bit < 16; bit++) { int p = -1; for (int i = 0; i < 16; i++) if (row[i] >> bit & 1 && val[i]) { bool used = false; (void)used; if (p < 0) p = i; else { row[i] ^= row[p]; val[i] ^= val[p]; } } if (p >= 0) { if (want >> bit & 1) { want ^= row[p]; x ^= val[p]; } row[p] = 0; val[p] = 0; } }
  wr(b, o, 2, x);
}
static void lengths(Ctx &c) {
  const Kind &k = kinds()[c.choose(2, "message")]; int hi = c.choose(256, "high byte"); c.leaf();
  for (int lo = 0; lo < 256; lo++) {
    size_t n = (size_t)(hi << 8 | lo); if (n == k.size) continue; c.step();
    // a buffer that holds what the length says, its checksum right at the end that the length gives; and one with the checksum right at the message's own place
    for (int way = 0; way < 2; way++) { size_t m = way ? k.size : n < 16 ? 16 : n; Bytes b = blank(k, 2 + way); b.resize(m, 0x11); wr(b, 4, 2, n); if (m >= 18) seal(b); refuse(c, k, b, fmt("length %zu", n)); }
    // checksum over the bytes the length gives, found where the message's own checksum is
    if (n >= 2 && n < k.size) { Bytes b = blank(k, 2); wr(b, 4, 2, n); wr(b, k.size - 2, 2, crc16(b.data(), n - 2)); refuse(c, k, b, fmt("length %zu with the checksum of its bytes", n)); }
    if (n > k.size) { Bytes b = blank(k, 2); b.resize(n, 0x77); wr(b, 4, 2, n); wr(b, k.size - 2, 2, 0); if (n < 300) for (int t = 0; t < 64; t++) { settle(b, k.size - 2, n - 2); if (crc16(b.data(), n - 2) == rd(b, k.size - 2, 2)) break; b[20] = (uint8_t)(b[20] + 37); } refuse(c, k, b, fmt("length %zu", n)); }
  }
}
static void identifiers(Ctx &c) {
  const Kind &k = kinds()[c.choose(2, "message")]; int id = c.choose(256, "identifier"), sync = c.choose(256, "sync byte"); if (id == k.id && sync == 0x7E) return;
  for (size_t m : {k.size, (size_t)20}) { Bytes b = blank(k, 3); b.resize(m); b[0] = (uint8_t)sync; b[1] = (uint8_t)id; wr(b, 4, 2, m); seal(b); if (m == 20 && id == k.id) continue; refuse(c, k, b, fmt("identifier %d, sync %02x", id, sync)); }
  XCOMHeader h; Bytes b = blank(k, 3); b[0] = (uint8_t)sync; b[1] = (uint8_t)id; std::unique_ptr<uint8_t[]> q(new uint8_t[16]); memcpy(q.get(), b.data(), 16); int rc = ixcom_decode_header(q.get(), &h);
  CHK(c, (rc == IXCOM_RC_OK) == (sync == 0x7E), "header with sync byte %02x: %d", sync, rc); if (!rc) CHK(c, h.msg_id == id, "identifier %d decoded as %d", id, h.msg_id);
}
static void checksums(Ctx &c) { const Kind &k = kinds()[c.choose(2, "message")]; int bg = c.choose(4, "background"), hi = c.choose(256, "high byte of the difference"); c.leaf(); Bytes b = blank(k, bg); seal(b); for (int lo = 0; lo < 256; lo++) { if (!(hi | lo)) continue; Bytes d = b; d[k.size - 2] ^= (uint8_t)lo; d[k.size - 1] ^= (uint8_t)hi; c.step(); refuse(c, k, d, fmt("checksum off by %02x%02x", hi, lo)); } }
static void damage(Ctx &c) {                                // one to three (four) wrong bits anywhere; one wrong byte
  const Kind &k = kinds()[c.choose(2, "message")]; int bg = c.choose(c.thorough ? 3 : 1, "background") + 2; Bytes b = blank(k, bg); seal(b); uint32_t n = (uint32_t)k.size * 8; uint32_t i = c.choose(n, "bit"); b[i / 8] ^= (uint8_t)(1 << i % 8); c.leaf();
  refuse(c, k, b, fmt("bit %u wrong", i));
  for (uint32_t j = i + 1; j < n; j++) { Bytes d = b; d[j / 8] ^= (uint8_t)(1 << j % 8); c.step(); refuse(c, k, d, fmt("bits %u and %u wrong", i, j)); if (c.thorough && bg == 2) for (uint32_t l = j + 1; l < n; l++) { d[l / 8] ^= (uint8_t)(1 << l % 8); refuse(c, k, d, "three bits wrong"); d[l / 8] ^= (uint8_t)(1 << l % 8); } }
  if (i % 8 == 0) for (int v = 1; v < 256; v++) { Bytes d = blank(k, bg); seal(d); d[i / 8] ^= (uint8_t)v; refuse(c, k, d, fmt("byte %u wrong by %02x", i / 8, v)); }
}
// the checksum against a bit by bit computation
static void crc(Ctx &c) {
  int n = c.choose(c.thorough ? 4 : 3, "length"); Bytes b; for (int i = 0; i < n; i++) b.push_back(0); uint32_t hi = c.choose(256, "first byte"); c.leaf(); uint32_t m = 1; for (int i = 1; i < n; i++) m *= 256;
  for (uint32_t x = 0; x < m; x += n == 3 ? (c.thorough ? 1 : 7) : 1) { if (n) { b[0] = (uint8_t)hi; for (int i = 1; i < n; i++) b[(size_t)i] = (uint8_t)(x >> 8 * (i - 1)); } c.step(); CHK(c, ixcom_checksum(b.data(), b.size()) == crc16(b.data(), b.size()), "checksum of %s is %04x, expected %04x", hex(b).c_str(), ixcom_checksum(b.data(), b.size()), crc16(b.data(), b.size())); }
  if (n == 2) { Bytes l; for (uint32_t i = 0; i < 300; i++) { l.push_back((uint8_t)(i * hi + (i >> 3))); CHK(c, ixcom_checksum(l.data(), l.size()) == crc16(l.data(), l.size()), "checksum of %zu bytes", l.size()); } }
}
// messages the user fills in encode to the documented bytes and decode to the same
static void encode(Ctx &c) {
  const Kind &k = kinds()[c.choose(2, "message")]; Bytes b = blank(k, c.choose(4, "background")); int x = c.choose((uint32_t)k.f.size(), "field"); auto v = values(k.f[(size_t)x].w, true); wr(b, k.f[(size_t)x].off, k.f[(size_t)x].w, v[c.choose((uint32_t)v.size(), "value")]); seal(b);
  Any a; auto head = [&](XCOMHeader &h, XCOMFooter &f) { h.sync = b[0]; h.msg_id = b[1]; h.frame_counter = b[2]; h.trigger_source = b[3]; h.msg_len = (uint16_t)rd(b, 4, 2); h.gps_week = (uint16_t)rd(b, 6, 2); h.gps_time_sec = (uint32_t)rd(b, 8, 4); h.gps_time_usec = (uint32_t)rd(b, 12, 4); f.global_status.value = (uint16_t)rd(b, k.size - 4, 2); f.crc16 = (uint16_t)rd(b, k.size - 2, 2); };
  std::unique_ptr<uint8_t[]> q(new uint8_t[k.size]); size_t n;
  if (k.id) { head(a.wheel.header, a.wheel.footer); a.wheel.speed = bitsf((uint32_t)rd(b, 16, 4)); a.wheel.ticks = (int32_t)rd(b, 20, 4); n = ixcom_encode_wheeldata(&a.wheel, q.get()); }
  else { head(a.imu.header, a.imu.footer); for (size_t i = 0; i < 3; i++) { memcpy((uint8_t *)&a.imu.acc[i], &b[16 + 4 * i], 4); memcpy((uint8_t *)&a.imu.omg[i], &b[28 + 4 * i], 4); } n = ixcom_encode_imuraw(&a.imu, q.get()); }
  CHK(c, n == k.size, "%s: encoding gives %zu bytes", k.name, n); for (size_t i = 0; i < n; i++) CHK(c, q[i] == b[i], "%s: byte %zu encoded as %02x, expected %02x", k.name, i, q[i], b[i]); c.traced(1);
  Bytes e(q.get(), q.get() + n); Any d; CHK(c, decode(k, e, d) == IXCOM_RC_OK, "%s: what was encoded is refused", k.name); for (auto &f : k.f) CHK(c, get(k, d, f.off) == rd(b, f.off, f.w), "%s: %s comes back as %llx", k.name, f.name, (unsigned long long)get(k, d, f.off));
  XCOMHeader h; XCOMFooter ft; std::unique_ptr<uint8_t[]> hb(new uint8_t[16]), fb(new uint8_t[4]); memcpy(hb.get(), &b[0], 16); memcpy(fb.get(), &b[k.size - 4], 4); ixcom_decode_header(hb.get(), &h); ixcom_decode_footer(fb.get(), &ft);
  for (size_t o : {0, 1, 2, 3, 4, 6, 8, 12}) CHK(c, get(h, ft, o, k.size) == rd(b, o, o < 4 ? 1 : o < 8 ? 2 : 4), "header field at %zu", o); CHK(c, get(h, ft, k.size - 4, k.size) == rd(b, k.size - 4, 2) && ft.crc16 == rd(b, k.size - 2, 2), "footer");
  memset(hb.get(), 0, 16); memset(fb.get(), 0, 4); CHK(c, ixcom_encode_header(&h, hb.get()) == 16 && !memcmp(hb.get(), &b[0], 16), "header is not encoded as it was"); CHK(c, ixcom_encode_footer(&ft, fb.get()) == 4 && !memcmp(fb.get(), &b[k.size - 4], 4), "footer is not encoded as it was");
}
// the global status word: each group of bits at its place
static void status(Ctx &c) {
  int hi = c.choose(256, "high byte"); c.leaf(); for (int lo = 0; lo < 256; lo++) { uint32_t v = (uint32_t)(hi << 8 | lo); uint8_t b[4] = {(uint8_t)lo, (uint8_t)hi, 1, 2}; XCOMFooter f; ixcom_decode_footer(b, &f); c.step(); auto &g = f.global_status.bits;
    CHK(c, f.global_status.value == v && f.crc16 == 0x0201, "footer %04x", v); CHK(c, g.HWERROR == (v >> 0 & 1) && g.COMERROR == (v >> 1 & 1) && g.NAVERROR == (v >> 2 & 1) && g.CALERROR == (v >> 3 & 1) && g.GYROVERRANGE == (v >> 4 & 1) && g.ACCOVERRAGE == (v >> 5 & 1) && g.GNSSINVALID == (v >> 6 & 1) && g.STANDBY == (v >> 7 & 1) && g.DYNAMICALIGN == (v >> 8 & 1) && g.TIMEINVALID == (v >> 9 & 1) && g.NAVMODE == (v >> 10 & 1) && g.AHRSMODE == (v >> 11 & 1) && g.ALIGNMODE == (v >> 12 & 3) && g.POSMODE == (v >> 14), "status bits of %04x", v); }
}
int main(int argc, char **argv) {
  Spec s; s.property = "C28";
  s.rule = "both messages: every field against the little-endian bytes at its documented offset, all single deviations over all bits and boundary values and pairs (triples), every value of every two-byte field (any two bytes), encoded again and compared; all 65536 lengths, all identifiers and sync bytes, all wrong checksums, all damages of up to 2 (3) bits and of one byte refused; checksums of all inputs up to 3 bytes against a bit by bit computation; buffers of exactly the message's size";
  s.assumptions = {"buffers hold as many bytes as the length field says, and at least a header"};
  s.scenarios = {{"fields", fields, 2, 3}, {"shorts", shorts}, {"lengths", lengths}, {"identifiers", identifiers}, {"checksums", checksums}, {"damage", damage}, {"crc", crc}, {"encode", encode}, {"status", status}};
  return run(argc, argv, s);
}
