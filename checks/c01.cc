#include "nov.hpp"
using namespace nov; using namespace mc;
static uint64_t first_field(int id, const void *d) {   // first body word, to tell messages apart
  using namespace Novatel::Message;
  switch (id) {
    case 7: return ((const GPSEPHEM_t *)d)->prn; case 42: return ((const BESTPOS_t *)d)->sol_stat; case 99: return ((const BESTVEL_t *)d)->sol_stat;
    case 140: return ((const RANGECMP_t *)d)->n_records; case 263: return ((const INSATT_t *)d)->gnss_week;
    case 723: return ((const GLOEPHEMERIS_t *)d)->sloto; case 1462: return ((const RAWIMUSX_t *)d)->imu_info;
  }
  return 0;
}
static uint64_t ref_first(int id, const Bytes &s, size_t o) {
  int n = id == 723 ? 2 : id == 1462 ? 1 : 4; uint64_t x = 0; for (int i = n; i-- > 0;) x = (x << 8) | s[o + i]; return x;
}
static void run_compare(Ctx &c, const Bytes &s, int end_ret, std::function<size_t(size_t, size_t, size_t)> policy, unsigned mask = 0x7F) {
  std::vector<Ref> want;
  for (auto &r : ref_scan(s)) {
    bool reg = false; for (int i = 0; i < 7; i++) if (IDS[i] == r.id && (mask >> i & 1)) reg = true;
    if (!reg) continue;
    size_t bl = body_len(r.id); if (r.id == 140) { if (r.len < 4 || (r.len - 4) % 24 || ref_first(140, s, r.body) != (uint64_t)(r.len - 4) / 24) continue; } else if (r.len != bl) continue;
    want.push_back(r);
  }
  Src src; src.s = &s; src.end_ret = end_ret; src.policy = policy; size_t k = 0; uint64_t h = 0;
  parse(src, [&](int cbid, const Novatel::BinaryHeader *hd, const void *d) {
    if (k >= want.size()) c.check(false, "message id %d delivered that is not in the stream (after %zu expected) in %s", hd->message_id, k, hex(s).substr(0, 600).c_str());
    auto &w = want[k];
    CHK(c, cbid == w.id && hd->message_id == w.id && hd->week == w.week && hd->ms == w.ms && hd->message_len == w.len && first_field(cbid, d) == ref_first(w.id, s, w.body),
            "delivery %zu is id %d week %d ms %d len %d (word %llx), expected id %d week %d ms %d len %d at offset %zu", k, hd->message_id, hd->week, hd->ms, hd->message_len, (unsigned long long)first_field(cbid, d), w.id, w.week, w.ms, w.len, w.off);
    h = mix(h, w.off * 8 + w.id); k++;
  }, mask);
  CHK(c, k == want.size(), "%zu of %zu intact messages delivered; first missing id %d at offset %zu of %zu, stream %s", k, want.size(), k < want.size() ? want[k].id : 0, k < want.size() ? want[k].off : 0, s.size(), hex(s).substr(0, 600).c_str());
  CHK(c, src.pos == s.size(), "stopped after %zu of %zu bytes", src.pos, s.size());
  c.step(src.calls); c.traced(); c.state(mix(h, hash_bytes(s.data(), s.size())));
}
static Bytes bestvel(unsigned tag) { Hdr h; h.id = 99; h.ms = (int)(1000 + tag); Bytes b = plain_body(99, tag); put(b, 0, 0x50000u + tag, 4); return long_msg(h, b); }
static Bytes insatt(unsigned tag) { Bytes b = plain_body(263, tag); put(b, 0, 0x60000u + tag, 4); return short_msg(263, 2101, (int)(5000 + tag), b); }
static Bytes anymsg(int id, unsigned tag, bool shrt) {
  Bytes b = plain_body(id, tag, 3);
  if (shrt) return short_msg((uint16_t)id, 2100, (int)tag, b);
  Hdr h; h.id = (uint16_t)id; h.ms = (int)tag; return long_msg(h, b);
}
static const int NSEG = 17;
static Bytes segment(int k, unsigned tag) {
  switch (k) {
    case 0: return bestvel(tag);
    case 1: return insatt(tag);
    case 2: { Hdr h; h.id = 1; return long_msg(h, Bytes(10, 0x11)); }
    case 3: return {0x00};
    case 4: return {0xAA};
    case 5: return {0xAA, 0x44};
    case 6: return {0xAA, 0x44, 0x12};
    case 7: return {0xAA, 0x44, 0x13};
    case 8: return {0xAA, 0x44, 0x12, 0x1C};
    case 9: { Bytes b = bestvel(tag); b[40] ^= 0x10; return b; }
    case 10: { Hdr h; h.id = 99; return long_msg(h, plain_body(99, tag), 200); }
    case 11: { Bytes b = insatt(tag); b.resize(30); return b; }
    case 12: { Hdr h; h.id = 42; return long_msg(h, Bytes(6, 0), 65535); }
    case 13: { Hdr h; h.id = 2; return long_msg(h, insatt(tag)); }
    case 14: { Hdr h; h.id = 2; Bytes b = long_msg(h, insatt(tag)); b[14] ^= 1; return b; }
    case 15: return short_msg(3, 1, 2, {});
    case 16: { Bytes b = insatt(tag); b[3] = 255; return b; }
  }
  return {};
}
static std::function<size_t(size_t, size_t, size_t)> policy(int k) {
  switch (k) {
    case 0: return [](size_t, size_t, size_t a) { return a; };
    case 1: return [](size_t, size_t, size_t) { return (size_t)1; };
    case 2: return [](size_t, size_t, size_t) { return (size_t)28; };
    case 3: return [](size_t i, size_t, size_t a) { return i % 2 ? a : (size_t)3; };
    case 4: return [](size_t i, size_t, size_t) { return (size_t)(1 + (i * 7) % 13); };
    default: return [](size_t, size_t, size_t) { return (size_t)64; };
  }
}
static void segments(Ctx &c) {
  int n = c.thorough ? 5 : 4; Bytes s;
  int len = 1 + (int)c.choose((uint32_t)n, "nseg");
  for (int i = 0; i < len; i++) append(s, segment((int)c.choose(NSEG, "seg"), (unsigned)i));
  int pol = (int)c.choose(6, "policy"), e = (int)c.choose(2, "end");
  run_compare(c, s, e ? -1 : 0, policy(pol));
}
static Bytes mixed(int v) {
  Bytes s;
  if (v == 0) { append(s, {0x01, 0xAA, 0x44}); append(s, bestvel(1)); append(s, {0xAA}); append(s, insatt(2)); append(s, segment(14, 3)); append(s, bestvel(4)); }
  else if (v == 1) { append(s, anymsg(42, 1, false)); append(s, anymsg(1462, 2, true)); append(s, segment(6, 0)); append(s, anymsg(263, 3, false)); append(s, {0xAA, 0x44, 0x13}); }
  else { append(s, segment(10, 0)); append(s, anymsg(140, 5, true)); append(s, segment(16, 1)); append(s, anymsg(7, 6, false)); }
  return s;
}
static void splits(Ctx &c) {
  int v = (int)c.choose(c.thorough ? 3 : 2, "stream"); Bytes s = mixed(v);
  size_t a = c.choose((uint32_t)s.size() + 1, "first split"), b = a + c.choose((uint32_t)(s.size() - a) + 1, "second split");
  int e = (int)c.choose(2, "end");
  run_compare(c, s, e ? -1 : 0, [a, b](size_t, size_t pos, size_t ask) { return pos < a ? a - pos : pos < b ? b - pos : ask; });
}
static void bitflips(Ctx &c) {
  int id = IDS[c.choose(7, "type")]; bool sh = c.choose(2, "short");
  Bytes m = anymsg(id, 9, sh); size_t bit = c.choose((uint32_t)m.size() * 8, "bit"); m[bit / 8] ^= (uint8_t)(1 << (bit % 8));
  Bytes s = bestvel(1); append(s, m); append(s, insatt(2)); append(s, bestvel(3));
  run_compare(c, s, 0, policy((int)c.choose(2, "policy")));
}
static void twoflips(Ctx &c) {
  Bytes m = insatt(1); uint32_t nb = (uint32_t)m.size() * 8;
  uint32_t i = c.choose(nb - 1, "bit a"), j = i + 1 + c.choose(nb - 1 - i, "bit b");
  m[i / 8] ^= (uint8_t)(1 << (i % 8)); m[j / 8] ^= (uint8_t)(1 << (j % 8));
  append(m, bestvel(2)); run_compare(c, m, 0, policy(0));
}
static void truncations(Ctx &c) {   // every message cut at every length, then other messages or the end
  int id = IDS[c.choose(7, "type")]; bool sh = c.choose(2, "short");
  Bytes m = anymsg(id, 9, sh); m.resize(c.choose((uint32_t)m.size() + 1, "kept"));
  int after = (int)c.choose(4, "after"); int pol = (int)c.choose(6, "policy"); int e = (int)c.choose(2, "end");
  Bytes s = insatt(1); append(s, m);
  if (after & 1) append(s, bestvel(2)); if (after & 2) append(s, insatt(3));
  run_compare(c, s, e ? -1 : 0, policy(pol));
}
static void boundary(Ctx &c) {   // messages around the internal buffer's end, oversized announcements
  uint32_t k = c.choose(c.thorough ? 420 : 160, "distance"); int kind = (int)c.choose(5, "kind"); int pol = (int)c.choose(3, "policy");
  Bytes s;
  if (kind == 0) { s.assign(4096 - 80 + k - (k > 79 ? 0 : 0), 0); append(s, bestvel(1)); append(s, insatt(2)); }
  else if (kind == 1) { Hdr h; h.id = 5; append(s, long_msg(h, Bytes(4096 - 32 - 100 + k, 0))); append(s, bestvel(1)); }                 // total around 4096, check value right
  else if (kind == 2) { Hdr h; h.id = 5; append(s, long_msg(h, Bytes(40, 0), 4096 - 32 - 60 + (int)k)); append(s, bestvel(1)); append(s, Bytes(4200, 0)); append(s, insatt(2)); }
  else if (kind == 3) { Hdr h; h.id = 42; append(s, long_msg(h, Bytes(20, 0), 65535 - (int)k)); append(s, bestvel(1)); append(s, Bytes(4200, 0)); append(s, insatt(2)); }
  else { for (uint32_t i = 0; i < 40 + k; i++) append(s, i % 3 ? bestvel(i) : insatt(i)); }                                          // long runs without junk
  size_t ch = pol == 0 ? 100000 : pol == 1 ? 511 : 37;
  run_compare(c, s, 0, [ch](size_t, size_t, size_t) { return ch; });
}
static void subscriptions(Ctx &c) {   // only registered message types are delivered
  unsigned mask = c.choose(128, "mask"); Bytes s;
  for (int i = 0; i < 7; i++) append(s, anymsg(IDS[i], (unsigned)i, i & 1));
  append(s, anymsg(140, 3, false)); run_compare(c, s, 0, policy((int)c.choose(3, "policy")), mask);
}
// a message whose check value is itself the start of a further message with a right check value
static void overlap(Ctx &c) {
  bool sh = c.choose(2, "outer short"), ish = c.choose(2, "inner short"); size_t k = 1 + c.choose(4, "shared bytes");
  int oid = c.choose(2, "outer subscribed") ? (sh ? 263 : 99) : 777; int pol = (int)c.choose(6, "policy"), after = (int)c.choose(2, "after"), lead = (int)c.choose(3, "lead");
  Bytes inner = ish ? short_msg(1462, 2102, 4000, plain_body(1462, 3)) : bestvel(7), body = sh ? plain_body(263, 2) : plain_body(99, 2);
  Hdr h; h.id = (uint16_t)oid; h.ms = 77;
  Bytes m = sh ? short_msg((uint16_t)oid, 2101, 88, body) : long_msg(h, body); m.resize(m.size() - 4);
  uint64_t want = 0, mask = 0; for (size_t i = 0; i < k; i++) { want |= (uint64_t)inner[i] << (8 * (4 - k + i)); mask |= 0xFFull << (8 * (4 - k + i)); }
  CHK(c, forge(m, m.size() - 8, 6, [](const Bytes &b) { return (uint64_t)ref_crc32_novatel(b.data(), b.size()); }, want, mask), "cannot forge");
  crc(m); Bytes s = lead == 0 ? Bytes{} : lead == 1 ? Bytes{0xAA, 0x44} : insatt(4);
  append(s, m); append(s, Bytes(inner.begin() + (long)k, inner.end())); if (after) append(s, bestvel(9));
  run_compare(c, s, 0, policy(pol));
}
int main(int argc, char **argv) {
  Spec s;
  s.property = "C01";
  s.rule = "all streams of up to 4 (thorough 5) of 17 segment kinds (intact, damaged, truncated, nested, partial-preamble, oversized) under 6 read policies and 2 end kinds; all pairs of split points of fixed streams; every single-bit flip of every message type (every two-bit flip of one); every truncation; streams around the buffer size; every subset of subscriptions; messages whose check value is also the start of another message; each run through the real parser and compared with a reference scan";
  s.assumptions = {"a message whose total size exceeds 4096 bytes is outside what the converter supports", "the read function returns between 1 and the requested number of bytes until the input ends"};
  s.scenarios = {{"segments", segments}, {"splits", splits}, {"bitflips", bitflips}, {"twoflips", twoflips, 1, 1, true}, {"truncations", truncations}, {"boundary", boundary}, {"subscriptions", subscriptions}, {"overlap", overlap}};
  return run(argc, argv, s);
}
