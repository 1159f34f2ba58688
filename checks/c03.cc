#include "novpipe.hpp"
using namespace nov; using namespace mc;
struct Seen { int n = 0; uint64_t h = 0; size_t nrec = 0; Bytes raw; };
static Seen look(Ctx &c, const Bytes &s, int id) {
  Src src; src.s = &s; Seen r;
  parse(src, [&](int cb, const Novatel::BinaryHeader *, const void *d) {
    if (cb != id) return;
    r.n++; size_t n = struct_size(id);
    if (id == 140) { auto *m = (const Novatel::Message::RANGECMP_t *)d; r.nrec = m->n_records; CHK(c, m->n_records <= m->records.size(), "%zu range records in a table of %zu", m->n_records, m->records.size());
      r.raw.clear(); for (size_t i = 0; i < m->n_records; i++) { auto &q = m->records[i]; uint64_t f[11] = {q.tracking_status, (uint64_t)q.doppler, (uint64_t)q.pseudorange, (uint64_t)q.ADR, q.stddev_psr, q.stddev_adr, q.prn_slot, q.lock_time, q.CN0, q.glo_freq_no, q.reserved}; for (uint64_t x : f) le(r.raw, x, 8); }
    } else r.raw.assign((const uint8_t *)d, (const uint8_t *)d + n);
  });
  return r;
}
static Bytes filled(size_t n, uint32_t pat, unsigned salt = 0) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = pat == 0 ? 0 : pat == 1 ? 0xFF : (uint8_t)((i * 29 + salt + 3) & 0x3F); return b; }
// the content handed over may only come from the message: the same message with other bytes behind it gives the same result
static void one(Ctx &c, int id, const Bytes &body, bool sh, bool enough) {
  Hdr h; h.id = (uint16_t)id; Bytes m = sh ? short_msg((uint16_t)id, 2100, 5, body) : long_msg(h, body);
  Seen a, b; bool first = true;
  for (uint8_t t : {(uint8_t)0x00, (uint8_t)0x5A}) {
    Bytes s = m; s.insert(s.end(), 400, t);
    Seen x = look(c, s, id); c.step();
    if (first) a = x; else b = x;
    first = false;
  }
  Seen e = look(c, m, id);
  CHK(c, a.n == b.n && a.n == e.n && a.raw == b.raw && a.raw == e.raw, "message %d with %zu body bytes: the result depends on the bytes behind the message (%d %d %d deliveries)", id, body.size(), a.n, b.n, e.n);
  CHK(c, a.n <= 1, "delivered %d times", a.n);
  if (!enough) CHK(c, a.n == 0, "message %d delivered from a body of only %zu bytes", id, body.size());
  c.state(hash_bytes(a.raw.data(), a.raw.size(), (uint64_t)a.n));
}
static void lengths(Ctx &c) {
  int id = IDS[c.choose(7, "type")]; uint32_t n = c.choose(c.thorough ? 1700 : 320, "body length"), pat = c.choose(3, "fill"); bool sh = c.choose(2, "short") && n < 256;
  Bytes b = filled(n, pat); c.at("type%d-length%u", id, n);
  bool enough = id == 140 ? n >= 4 && pat == 0 : n >= body_len(id);
  if (id == 140 && n >= 4 && pat) { uint64_t cnt = b[0] | b[1] << 8 | b[2] << 16 | (uint64_t)b[3] << 24; enough = n >= 4 + 24 * cnt; }
  one(c, id, b, sh, enough);
}
static void counts(Ctx &c) {
  static const uint32_t CN[] = {0, 1, 2, 3, 10, 61, 62, 63, 64, 65, 100, 127, 128, 168, 169, 170, 255, 256, 65535, 65536, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, 0x0AAAAAAAu, 0x0AAAAAABu, 0x15555555u, 0x2AAAAAABu};
  uint32_t cnt = CN[c.choose(27, "count")], recs = c.choose(c.thorough ? 169 : 70, "records present"), extra = c.choose(5, "extra bytes"); uint32_t pat = c.choose(2, "fill") + 1;
  static const int EX[5] = {0, 1, 23, -1, -23};
  size_t n = 4 + 24 * (size_t)recs; if ((long)n + EX[extra] < 4) return; n = (size_t)((long)n + EX[extra]);
  Bytes b = filled(n, pat); put(b, 0, cnt, 4); c.at("count%u-records%u-extra%d", cnt, recs, EX[extra]);
  one(c, 140, b, false, n >= 4 + 24 * (uint64_t)cnt);
}
static void truncated_stream(Ctx &c) {     // end of input at every byte, every read size 1..3 or whole
  int id = IDS[c.choose(7, "type")]; bool sh = c.choose(2, "short"); Bytes body = plain_body(id, 3, 2); Hdr h; h.id = (uint16_t)id;
  if (sh && body.size() > 255) return;
  Bytes m = sh ? short_msg((uint16_t)id, 2100, 5, body) : long_msg(h, body); uint32_t cut = c.choose((uint32_t)m.size(), "cut"), rs = c.choose(4, "read size"); bool err = c.choose(2, "read error");
  Bytes s(m.begin(), m.begin() + cut); Src src; src.s = &s; src.end_ret = err ? -1 : 0; if (rs) src.policy = [rs](size_t, size_t, size_t) { return (size_t)rs; };
  int n = 0; parse(src, [&](int, const Novatel::BinaryHeader *, const void *) { n++; });
  CHK(c, n == 0, "a cut message was delivered"); c.step(); c.state(mix(cut, (uint64_t)id * 8 + rs));
}
static void lying_length(Ctx &c) {         // the header's length byte(s) say anything, check value right over what is there or over nothing
  bool sh = c.choose(2, "short"); uint32_t hi = sh ? 0 : c.choose(256, "high byte"), lo = c.choose(256, "low byte"); int id = IDS[c.choose(7, "type")];
  Bytes body = plain_body(id, 1, 2); Hdr h; h.id = (uint16_t)id; Bytes m = sh ? short_msg((uint16_t)id, 2, 3, body, (int)lo) : long_msg(h, body, (int)(hi << 8 | lo));
  if (!c.thorough && hi > 20 && hi % 17) return;
  uint32_t len = hi << 8 | lo; Bytes s = m; Hdr g; g.id = 263; Bytes good = long_msg(g, plain_body(263, 2)); append(s, good); append(s, good);
  Src src; src.s = &s; int n = 0, other = 0; parse(src, [&](int cb, const Novatel::BinaryHeader *hd, const void *) { (void)hd; if (cb == 263) n++; else other++; });
  int want = 0; for (auto &r : ref_scan(s)) if (r.id == 263 && r.len == 40) want++;
  CHK(c, n == want, "%d of the %d attitude messages with a right check value around a message announcing %u bytes were delivered", n, want, len);
  if (len != body.size() && want == 2) CHK(c, other == 0, "a message with a wrong length and so a wrong check value was delivered");
  c.step(); c.state(mix(hi << 8 | lo, (uint64_t)id));
}
static void pipeline(Ctx &c) {             // enumerations, counts and extreme field values through the whole converter
  int id = IDS[c.choose(7, "type")]; Bytes b = plain_body(id, 5, 3); uint32_t off = c.choose((uint32_t)b.size(), "byte"), w = c.choose(4, "width"), v = c.choose(w == 0 ? 256 : 6, "value");
  static const int W[4] = {1, 2, 4, 8}; static const uint64_t V[6] = {0, ~0ull, 0x8000000000000000ull, 0x7FEFFFFFFFFFFFFFull, 0x7FF8000000000000ull, 0x8080808080808080ull};

  size_t n = (size_t)W[w]; if (off + n > b.size()) return; if (w && off % (w == 3 ? 4 : (uint32_t)n)) return;
  for (size_t i = 0; i < n; i++) b[off + i] = w == 0 ? (uint8_t)v : (uint8_t)(V[v] >> (8 * (8 - n + i)));
  c.at("pipe-type%d-off%u-w%u-v%u", id, off, w, v);
  Hdr h; h.id = (uint16_t)id; h.ms = 5000; Bytes in = long_msg(h, b); append(in, in);
  auto out = convert(c, in); c.step(2); uint64_t hs = out.size(); for (auto &m : out) hs = mix(hs, m.type); c.state(hs); c.traced();
}
static void pipe_headers(Ctx &c) {         // any week and time of week in the header
  int id = IDS[c.choose(7, "type")]; static const uint32_t MS[] = {0, 1, 999, 604799999u, 604800000u, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, 345600000u}; uint32_t i = c.choose(9, "ms"), j = c.choose(9, "next ms"); static const uint16_t WK[] = {0, 1, 2100, 65535};
  Hdr h; h.id = (uint16_t)id; Bytes in; h.week = WK[c.choose(4, "week")]; h.ms = (int32_t)MS[i]; Bytes b = plain_body(id, 5, 3); if (id == 1462) { b[0] = 0; b[1] = (uint8_t)c.choose(64, "imu type"); }
  append(in, long_msg(h, b)); h.week = WK[c.choose(4, "next week")]; h.ms = (int32_t)MS[j]; append(in, long_msg(h, b)); c.at("pipe-type%d-ms%u-%u", id, MS[i], MS[j]);
  auto out = convert(c, in); c.step(2); uint64_t hs = out.size(); for (auto &m : out) hs = mix(hs, hash_bytes(m.p.data(), m.p.size())); c.state(hs); c.traced();
}
int main(int argc, char **argv) {

  Spec s; s.property = "C03";
  s.rule = "every message type with every body length up to the bound, all-zero / all-one / patterned bodies, both headers; every listed range-record count against every number of records present; end of input at every byte with several read sizes; every announced length; every byte of every body at all 256 values and 2/4/8-byte extremes through nov2sbp_main; header time extremes in pairs; run under AddressSanitizer, assertions on";
  s.assumptions = {"a body longer than its type's layout may be refused or delivered with the right fields", "undefined integer/float conversions that trap on no supported compiler are not counted as faults"};
  s.scenarios = {{"lengths", lengths}, {"counts", counts}, {"truncated_stream", truncated_stream}, {"lying_length", lying_length}, {"pipeline", pipeline}, {"pipe_headers", pipe_headers}};
  return run(argc, argv, s);
}
