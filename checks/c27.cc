// C27: iXCOM stream: every frame with a right checksum is processed once, in order
#include "ixpipe.hpp"
extern "C" {
int ixcom2sbp_main(int argc, char **argv, const char *additional_opts_help, int (*readfn)(uint8_t *, size_t, void *), int (*writefn)(uint8_t *, uint32_t, void *), void *context);
}
#include <getopt.h>
using namespace mc; using namespace ix;
enum { LIMIT = 4096 };                                     // the longest message the converter holds
// ------------------------------------------------------------------ reference: scan the whole stream
static std::vector<Bytes> scan(const Bytes &b) {
  std::vector<Bytes> v; size_t p = 0;
  while (p + 20 <= b.size()) {
    if (b[p] != 0x7E) { p++; continue; }
    size_t n = (size_t)b[p + 4] | (size_t)b[p + 5] << 8; if (n < 20 || n > LIMIT) { p++; continue; }
    if (p + n > b.size()) break;
    if (crc16(&b[p], n - 2) != (b[p + n - 2] | b[p + n - 1] << 8)) { p++; continue; }
    v.push_back(Bytes(b.begin() + (long)p, b.begin() + (long)(p + n))); p += n;
  }
  return v;
}
static Bytes tail(Bytes b) { b.insert(b.end(), LIMIT + 32, 0); return b; }
static Bytes im(int id) { uint32_t v[6]; for (int i = 0; i < 6; i++) v[i] = fbits((float)(id * 0.01 + i * 0.1)); Head h; h.sec = (uint32_t)id; h.counter = id & 255; return imu(v, h); }
static Bytes wh(int id) { Head h; h.sec = 5000u + (uint32_t)id; return wheel(fbits((float)id), (uint32_t)(id * 7 - 100), h); }
static Bytes other(int id, size_t n) { Bytes p; for (size_t i = 0; i < n; i++) p.push_back((uint8_t)(i * 5 + (size_t)id)); return message(0x03, p); }
static Bytes claim(Bytes f, size_t n) { f[4] = (uint8_t)n; f[5] = (uint8_t)(n >> 8); return f; }
static Bytes cat(Bytes a, const Bytes &b) { append(a, b); return a; }
enum { NSEG = 20 };
static const char *SN[NSEG] = {"inertial message", "wheel message", "unknown message", "longest message", "shortest message", "message around a message", "damaged message around a message", "damaged checksum", "damaged payload", "sync byte", "three sync bytes", "truncated message", "length 0", "length 19", "too long a length", "length beyond the next messages", "other bytes", "checksum that ends in a sync byte", "message of sync bytes", "longest message around messages"};
static Bytes seg(int k, int id) {
  switch (k) {
    case 0: return im(id);
    case 1: return wh(id);
    case 2: return other(id, 11);
    case 3: return other(id, LIMIT - 20);
    case 4: return other(id, 0);
    case 5: return message(0xFD, cat({1, 2}, im(id + 100)));
    case 6: { Bytes f = message(0x03, cat({1, 2}, im(id + 100))); f.back() ^= 0x10; return f; }
    case 7: { Bytes f = im(id); f.back() ^= 1; return f; }
    case 8: { Bytes f = wh(id); f[18] ^= 0x80; return f; }
    case 9: return {0x7E};
    case 10: return {0x7E, 0x7E, 0x7E};
    case 11: { Bytes f = im(id); f.resize(15); return f; }
    case 12: return claim(im(id), 0);
    case 13: return claim(wh(id), 19);
    case 14: return claim(im(id), LIMIT + 1);
    case 15: return claim(im(id), 90);
    case 16: return {0, 0xFF, 0x55, 0x24, 0xD3};
    case 17: for (int i = 0;; i++) { Head h; h.usec = (uint32_t)i; h.sec = (uint32_t)id; Bytes f = wheel(fbits(1.5f), 3, h); if (f.back() == 0x7E || i > 5000) return f; }
    case 18: return message(0x03, Bytes(30, 0x7E));
    default: { Bytes p; while (p.size() + 64 <= LIMIT - 20) append(p, im(id + 60)); p.resize(LIMIT - 20, 3); return message(0x03, p); }
  }
}
static std::vector<std::string> want(const Bytes &b) { X x; for (auto &p : scan(b)) x.stream(p); return x.shown(); }
static void expect(Ctx &c, const std::vector<std::string> &w, const std::vector<std::string> &g, const std::string &how) {
  size_t n = w.size() < g.size() ? w.size() : g.size();
  for (size_t i = 0; i < n; i++) CHK(c, w[i] == g[i], "%s: output %zu is %.200s, expected %.200s", how.c_str(), i, g[i].c_str(), w[i].c_str());
  CHK(c, w.size() == g.size(), "%s: %zu messages sent, expected %zu (%.200s)", how.c_str(), g.size(), w.size(), w.size() > n ? w[n].c_str() : n < g.size() ? g[n].c_str() : "");
  c.traced(g.size()); for (auto &x : g) c.state(hash_str(x));
}
static const size_t CH[] = {0, 1, 2, 3, 5, 8, 13, 64, 255, 1024, 4095, 4096};
static std::vector<size_t> chunks(size_t n, size_t k) { std::vector<size_t> v; if (k) for (size_t p = 0; p < n; p += k) v.push_back(k); return v; }
static void judge(Ctx &c, const Bytes &b, const std::vector<size_t> &sp, const std::string &how) {
  X u; bool end = u.stream(b, sp); CHK(c, end, "%s: the converter does not report the end of input", how.c_str());
  expect(c, want(b), u.shown(), how);
}
static void mixed(Ctx &c) {
  int len = c.thorough ? 4 : 3; Bytes b; std::string how;
  for (int i = 0; i < len; i++) { int k = (int)c.choose(NSEG, "segment"); append(b, seg(k, i + 1)); how += std::string(i ? ", " : "") + SN[k]; }
  append(b, wh(99)); b = tail(b); size_t ch = CH[c.choose(c.thorough ? 3 : 4, "reads")]; if (c.thorough && ch == 1) ch = 7;
  judge(c, b, chunks(b.size(), ch), how);
  // the messages are really what the segments are meant to be: intact ones are found whatever surrounds them (unless swallowed by a claimed length)
}
static void intact(Ctx &c) {                                // only segments that claim no more than they have: what is found is known beforehand
  static const int ks[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 13, 14, 16, 17, 18, 19}; int len = c.thorough ? 4 : 3; Bytes b; std::vector<Bytes> known; std::string how;
  for (int i = 0; i < len; i++) { int k = ks[c.choose(16, "segment")]; Bytes s = seg(k, i + 1); append(b, s); how += std::string(i ? ", " : "") + SN[k]; if (k == 0 || k == 1 || k == 17) known.push_back(s); if (k == 6) known.push_back(im(i + 101)); }
  c.leaf(); X u; u.stream(tail(b), chunks(b.size(), (size_t)(len * 3))); size_t n = 0; for (auto &e : u.out) if (e.type == SbpMsgImuRaw || e.type == SbpMsgWheeltick) {
    CHK(c, n < known.size(), "%s: too many messages", how.c_str()); const Bytes &k = known[n++]; uint32_t sec = k[8] | k[9] << 8; bool w = k[1] == 0x16; CHK(c, w == (e.type == SbpMsgWheeltick) && (w ? e.m.wheeltick.time / 1000000 : e.m.imu_raw.tow / 1000) == sec, "%s: message %zu is %s", how.c_str(), n - 1, ix::show(e).c_str()); }
  CHK(c, n == known.size(), "%s: %zu messages processed, expected %zu", how.c_str(), n, known.size()); c.traced(n); c.state(hash_str(how));
}
static Bytes all_segments(std::vector<size_t> *border = nullptr) { Bytes b; for (int k = 0; k < NSEG; k++) { if (border) border->push_back(b.size()); append(b, seg(k, k + 1)); } return tail(b); }
static void splits(Ctx &c) {
  static std::vector<size_t> border; static Bytes b = all_segments(&border); size_t n = b.size(); static std::vector<std::string> w = want(b);
  size_t first = c.choose((uint32_t)n, "first read"); if (first == 0) return; std::string how = fmt("reads of %zu bytes", first);
  X u; bool end = u.stream(b, {first}); CHK(c, end, "%s: no end reported", how.c_str()); expect(c, w, u.shown(), how);
  bool near = false; for (size_t p : border) if (first + 6 >= p && first <= p + 24) near = true;
  if (!near) return;
  for (size_t second = 1; second < (c.thorough ? 600u : 24u); second++) { X v; c.step(); end = v.stream(b, {first, second}); CHK(c, end, "%s, %zu: no end reported", how.c_str(), second); expect(c, w, v.shown(), how + fmt(" and %zu", second)); }
}
static void pieces(Ctx &c) { static Bytes b = all_segments(); size_t k = (size_t)c.choose(4200, "read size"); static Bytes p = cat(im(1), cat(b, im(2))); judge(c, p, chunks(p.size(), k), fmt("reads of %zu bytes", k)); }
// every message length, checksum right; and every claimed length of a message that has another one
static void sizes(Ctx &c) {
  size_t n = (size_t)c.choose(4300, "length"); c.leaf(); for (int id : {0x03, 0x00, 0x16}) {
    Bytes b; if (n >= 20) { Bytes p(n - 20); for (size_t i = 0; i < p.size(); i++) p[i] = (uint8_t)(i * 7 + n); b = message(id, p); } else { b = message(id, {}); b.resize(n > 6 ? n : 6); b = claim(b, n); if (n >= 8) { uint16_t k = crc16(b.data(), n - 2); b[n - 2] = (uint8_t)k; b[n - 1] = (uint8_t)(k >> 8); } }
    append(b, wh(7)); append(b, im(8)); b = tail(b); judge(c, b, {}, fmt("message %d of %zu bytes", id, n)); }
}
static void claims(Ctx &c) {
  int hi = c.choose(256, "claimed length, high byte"); c.leaf();
  for (int lo = 0; lo < 256; lo += c.thorough ? 1 : 3) { size_t n = (size_t)(hi << 8 | lo); Bytes b = claim(im(3), n); append(b, wh(4)); append(b, im(5)); append(b, claim(im(6), (n * 7) & 0xFFF)); append(b, wh(8)); b = tail(b); c.step(); judge(c, b, chunks(b.size(), lo % 3 == 0 ? 0 : lo % 3 == 1 ? 9 : 512), fmt("claimed length %zu", n));
    // the same with a checksum that is right for a message of the length's lower bits
    size_t low = n & (lo & 1 ? 0xFFF : 0xFF); if (low > 300 || low < 8) continue;
    Bytes f = {0x7E, 0, 1, 2, (uint8_t)n, (uint8_t)(n >> 8)}; f.resize(low - 2, 0x21); le(f, crc16(f.data(), f.size()), 2); append(f, im(4)); c.step(); judge(c, tail(f), {}, fmt("claimed length %zu, checksum right for %zu", n, low)); }
}
static void cut(Ctx &c) {
  static const int ks[] = {0, 7, 1, 8, 2, 16, 4, 0, 5, 17, 3, 1}; static Bytes b; if (b.empty()) { int id = 1; for (int k : ks) append(b, seg(k, id++)); }
  size_t n = (size_t)c.choose((uint32_t)b.size() + 1, "end of input"), ch = CH[c.choose(5, "reads")];
  Bytes p(b.begin(), b.begin() + (long)n); X v; bool end = v.stream(p, chunks(n, ch)); CHK(c, end, "end after %zu bytes is not reported", n);
  // damaged messages may hide up to a header's length of what follows until more bytes arrive
  auto w = want(p), g = v.shown(); expect(c, w, g, fmt("end after %zu bytes", n));
  if (ch) return;
  X u; u.stream(p); size_t before = u.out.size(); for (int i = 0; i < 3; i++) CHK(c, ixcom_sbp_process(u.st(), &X::rd) <= 0, "the end of input after %zu bytes is forgotten", n); CHK(c, u.out.size() == before, "messages appear after the end of input");
}
static Bytes base() { Bytes b; append(b, im(1)); append(b, wh(2)); append(b, other(3, 0)); append(b, message(0x03, cat({9}, wh(104)))); append(b, im(5)); append(b, wh(6)); return b; }
static void flips(Ctx &c) {
  static Bytes b = base(); size_t p = (size_t)c.choose((uint32_t)b.size(), "position"); int v = c.choose(256, "value"); Bytes d = b; d[p] = (uint8_t)v; static const size_t r[] = {0, 4, 33};
  bool pair = v == 0 || v == 1 || v == 0x7E || v == 0xFF || v == 0x14 || v == 0x2C || (v ^ b[p]) == 0x80 || (v ^ b[p]) == 1; int second = pair ? (int)c.dev((uint32_t)b.size() + 1, "second damaged byte") : 0; if (second) { static const uint8_t w[] = {0x7E, 0x00, 0x01, 0xFF, 0x80, 0x14}; d[(size_t)second - 1] = w[c.choose(6, "its value")]; }
  d = tail(d); judge(c, d, chunks(d.size(), r[(p + (size_t)v) % 3]), fmt("byte %zu is %02x", p, v));
}
static void shifts(Ctx &c) {
  static Bytes b = base(); size_t p = (size_t)c.choose((uint32_t)b.size(), "position"); int k = c.choose(8, "what"); static const uint8_t w[] = {0x7E, 0x14, 0, 0xFF, 0x2C, 0x1C}; Bytes d(b.begin(), b.begin() + (long)p);
  size_t lost = k == 6 ? 1 : k == 7 ? 3 : 0; if (k < 6) d.push_back(w[k]); if (p + lost < b.size()) d.insert(d.end(), b.begin() + (long)(p + lost), b.end());
  d = tail(d); judge(c, d, {}, fmt("at byte %zu: %s", p, k < 6 ? "one byte more" : "bytes lost"));
}
static void noise(Ctx &c) {                                 // long runs of sync bytes and claimed lengths
  int k = c.choose(6, "noise"); size_t n = (size_t)c.choose(70, "length") * 61; c.leaf(); Bytes b; for (size_t i = 0; b.size() < n; i++) { if (k == 0) b.push_back(0x7E); else if (k == 1) append(b, Bytes{0x7E, 0, 1, 2, (uint8_t)(20 + i), 0}); else if (k == 2) append(b, Bytes{0x7E, 0, 1, 2, 0xFF, 0x0F}); else if (k == 3) append(b, Bytes{0x7E, 0x7E, 0x16, 0}); else if (k == 4) append(b, claim(im(1), 20 + i)); else append(b, seg(8, (int)i)); }
  append(b, im(1)); append(b, wh(2)); b = tail(b); judge(c, b, chunks(b.size(), n % 7), fmt("noise %d of %zu bytes", k, n));
}
// a message whose checksum is also the start of a further message with a right checksum
static void overlap(Ctx &c) {
  size_t k = 1 + c.choose(2, "shared bytes"); int outer = c.choose(3, "outer"), in = c.choose(3, "inner"), lead = c.choose(NSEG, "before"), brk = c.choose(2, "outer damaged"); size_t ch = CH[c.choose(12, "reads")];
  Bytes m = other(5, outer == 0 ? 14 : outer == 1 ? 700 : LIMIT - 20), inner = in == 0 ? im(44) : in == 1 ? wh(45) : other(7, 3); m.resize(m.size() - 2); uint64_t want_ = k == 1 ? (uint64_t)inner[0] << 8 : (uint64_t)(inner[0] | inner[1] << 8);
  CHK(c, forge(m, m.size() - 6, 4, [](const Bytes &b) { return (uint64_t)crc16(b.data(), b.size()); }, want_, k == 1 ? 0xFF00 : 0xFFFF), "cannot forge"); le(m, crc16(m.data(), m.size()), 2); if (brk) m[18] ^= 0x40;
  Bytes b = seg(lead, 1); append(b, m); append(b, Bytes(inner.begin() + (long)k, inner.end())); append(b, wh(46)); b = tail(b); judge(c, b, chunks(b.size(), ch), fmt("messages sharing %zu bytes (%d, %d, %s before, damaged %d)", k, outer, in, SN[lead], brk));
}
static void errors(Ctx &c) {
  static Bytes b; if (b.empty()) for (int k : {0, 1, 7, 0, 4, 1}) append(b, seg(k, k + 1));
  size_t ch = (size_t)c.choose(40, "read size") + 1; size_t at = (size_t)c.choose((uint32_t)b.size() + 1, "failing read"); static const int E[] = {0, -1, -5}; int with = E[c.choose(3, "error")];
  X u; u.fail_at = (long)at; u.fail_with = with; bool end = u.stream(b, chunks(b.size(), ch)); CHK(c, end, "failing read %zu of %zu bytes: no end reported", at, ch);
  size_t have = u.pos; if (have >= b.size() && u.reads <= (long)at) return; Bytes head(b.begin(), b.begin() + (long)have), rest(b.begin() + (long)have, b.end());
  expect(c, want(head), u.shown(), fmt("read %zu of %zu bytes fails with %d", at, ch, with));
  u.fail_at = -1; end = u.stream(rest, chunks(rest.size(), ch)); CHK(c, end, "going on after failing read %zu of %zu bytes: no end reported", at, ch);
  auto g = u.shown(); if (g == want(b)) return; CHK(c, with, "a read of %zu bytes that gives nothing loses the message it interrupts", ch);            // kept what it had read of the interrupted message
  X v; for (auto &p : scan(head)) v.stream(p); for (auto &p : scan(rest)) v.stream(p); expect(c, v.shown(), g, fmt("going on after read %zu of %zu bytes failed with %d", at, ch, with));
}
// the program: options, whole streams
static std::vector<Emit> sent; static Bytes pin; static size_t ppos, pchunk; static long preads;
static void on_send(sbp_msg_type_t t, u16 sender, const sbp_msg_t *m, void *) { Emit e; e.sender = sender; e.type = (int)t; e.m = *m; sent.push_back(e); }
static int prd(uint8_t *b, size_t n, void *) { if (++preads > 100000) return -1; size_t k = pin.size() - ppos; if (pchunk && k > pchunk) k = pchunk; if (k > n) k = n; if (k) memcpy(b, &pin[ppos], k); ppos += k; return (int)k; }
static int pwr(uint8_t *, uint32_t n, void *) { return (int)n; }
static void program(Ctx &c) {
  int opt = c.choose(5, "options"), k = c.choose(NSEG, "first segment"), k2 = c.choose(NSEG, "second segment"); pchunk = CH[c.choose(4, "reads")];
  std::vector<std::string> a = {"ixcom2sbp"}; unsigned sender = 4711;
  switch (opt) { case 1: a.push_back("-s"); a.push_back("4660"); sender = 4660; break; case 2: a.push_back("-s"); a.push_back("0x1234"); sender = 0x1234; break; case 3: a.push_back("--sender_id"); a.push_back("65535"); sender = 65535; break; case 4: a.push_back("--sender_id=7"); sender = 7; break; }
  pin = seg(k, 1); append(pin, im(50)); append(pin, seg(k2, 2)); append(pin, wh(51)); pin = tail(pin); ppos = 0; preads = 0;
  std::vector<char *> av; for (auto &x : a) av.push_back(&x[0]); av.push_back(nullptr);
  sent.clear(); shim_on_send = on_send; optind = 0; int rc = ixcom2sbp_main((int)a.size(), av.data(), "", prd, pwr, nullptr); shim_on_send = nullptr;
  X u; ixcom_set_sender_id(u.st(), (uint16_t)sender); for (auto &p : scan(pin)) u.stream(p);
  std::vector<std::string> g; for (auto &e : sent) g.push_back(ix::show(e));
  CHK(c, rc == 0, "program ends with %d", rc); expect(c, u.shown(), g, fmt("program with options %d on %s, %s", opt, SN[k], SN[k2]));
  bool wt = false; for (auto &e : sent) { CHK(c, e.sender == sender, "sender %u instead of %u", e.sender, sender); wt |= e.type == SbpMsgWheeltick; } CHK(c, wt, "the last message is not converted after %s, %s", SN[k], SN[k2]);
}
int main(int argc, char **argv) {
  Spec s; s.property = "C27";
  s.rule = "all sequences of 3 (4) of 20 kinds of segments; one stream of all kinds under every read size, every first read and second reads near segment borders; every message length and claimed length; end of input after every byte; every value of every byte of a message stream (pairs in thorough); bytes lost and put in; runs of sync bytes; read errors; the program with its options: outputs compared with those of the messages a scan of the whole stream finds";
  s.assumptions = {"after a damaged message the search goes on right behind its sync byte; streams with damaged lengths end in enough other bytes to complete them", "messages above 4096 bytes do not fit the converter", "read errors end the stream; going on may keep or drop the interrupted message after an error, and keeps it after a read that gave no bytes"};
  s.scenarios = {{"mixed", mixed}, {"intact", intact}, {"splits", splits}, {"pieces", pieces}, {"sizes", sizes}, {"claims", claims}, {"cut", cut}, {"flips", flips, 0, 1}, {"shifts", shifts}, {"noise", noise}, {"overlap", overlap}, {"errors", errors}, {"program", program}};
  return run(argc, argv, s);
}
