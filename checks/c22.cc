// C22: u-blox stream: every message with a right checksum is processed once, in order
#include "ubxpipe.hpp"
extern "C" {
int ubx2sbp_main(int argc, char **argv, const char *additional_opts_help, int (*readfn)(uint8_t *, size_t, void *), int (*writefn)(uint8_t *, uint32_t, void *), void *context);
}
#include <getopt.h>
using namespace mc; using namespace ubxref; using namespace ubxpipe;
enum { LIMIT = 4090 };                                     // the longest payload the converter holds
// ------------------------------------------------------------------ reference: scan the whole stream
static std::vector<Bytes> scan(const Bytes &b, size_t *open = nullptr) {
  std::vector<Bytes> v; size_t p = 0; if (open) *open = b.size();
  while (p + 6 <= b.size()) {
    if (b[p] != 0xB5 || b[p + 1] != 0x62) { p++; continue; }
    size_t n = (size_t)b[p + 4] | (size_t)b[p + 5] << 8; if (n > LIMIT) { p += 2; continue; }
    if (p + 8 + n > b.size()) { if (open) *open = p; break; }
    uint8_t x, y; ubxref::checksum(&b[p + 2], n + 4, x, y); if (x != b[p + 6 + n] || y != b[p + 7 + n]) { p += 2; continue; }
    v.push_back(Bytes(b.begin() + (long)p + 2, b.begin() + (long)(p + 6 + n))); p += 8 + n;
  }
  return v;
}
static Bytes tail(Bytes b) { b.insert(b.end(), LIMIT + 16, 0); return b; }
static Bytes msg(int cls, int id, const Bytes &p) { Bytes b = {(uint8_t)cls, (uint8_t)id, (uint8_t)p.size(), (uint8_t)(p.size() >> 8)}; append(b, p); return b; }
static Bytes hw(uint8_t id, size_t n = 5) { Bytes d; for (size_t i = 0; i < n; i++) d.push_back((uint8_t)(id * 31 + i)); return msg(0x0A, 0x09, d); }     // forwarded byte by byte
static Bytes pvt(uint8_t id) { static Shape s = nav_pvt(); auto r = s.pattern(2); r[0] = 1000u + id; return s.bytes(r); }
static Bytes velecef(uint8_t id) { static Shape s = nav_velecef(); auto r = s.pattern(0); r[0] = 2000u + id; r[1] = id; return s.bytes(r); }
static Bytes raw_full(uint8_t id) { static Shape s = rxm_rawx(127); auto r = s.pattern(0); double t = 100.0 + id; memcpy(&r[0], &t, 8); r[1] = 2100; Bytes b = s.bytes(r); b.resize(4 + LIMIT, id); b[2] = (uint8_t)LIMIT; b[3] = LIMIT >> 8; return b; }
static Bytes cat(const Bytes &a, const Bytes &b) { Bytes c = a; append(c, b); return c; }
static Bytes claim(Bytes f, size_t n) { f[4] = (uint8_t)n; f[5] = (uint8_t)(n >> 8); return f; }
static Bytes synccheck(uint8_t id, uint8_t want) { for (int i = 0; i < 65536; i++) { Bytes f = frame(msg(0x0A, 0x09, {id, (uint8_t)i, (uint8_t)(i >> 8)})); if (f[f.size() - 1] == want) return f; } return frame(hw(id)); }
static Bytes inside(const Bytes &f) { return msg(0x0A, 0x09, f); }
enum { NSEG = 18 };
static const char *SN[NSEG] = {"message", "position", "longest message", "empty message", "unknown class", "message around a message", "damaged message around a message", "message with damaged checksum", "message with damaged payload", "sync bytes only", "first sync byte", "two first sync bytes", "truncated message", "too long a length", "length beyond the next messages", "other bytes", "message whose checksum ends in a sync byte", "second sync byte"};
static Bytes seg(int k, uint8_t id) {
  switch (k) {
    case 0: return frame(hw(id));
    case 1: return frame(pvt(id));
    case 2: return frame(raw_full(id));
    case 3: return frame(msg(0x0A, 0x09, {}));
    case 4: return frame(msg(0x77, id, {1, 2, 3}));
    case 5: return frame(inside(frame(hw((uint8_t)(id + 100)))));
    case 6: { Bytes f = frame(inside(frame(hw((uint8_t)(id + 100))))); f.back() ^= 0x10; return f; }
    case 7: { Bytes f = frame(hw(id)); f.back() ^= 1; return f; }
    case 8: { Bytes f = frame(hw(id)); f[7] ^= 0x80; return f; }
    case 9: return {0xB5, 0x62};
    case 10: return {0xB5};
    case 11: return {0xB5, 0xB5};
    case 12: { Bytes f = frame(pvt(id)); f.resize(15); return f; }
    case 13: return claim(frame(hw(id)), LIMIT + 1);
    case 14: return claim(frame(hw(id)), 40);
    case 15: return {0, 0xFF, 0x55, 0x24, 0xD3};
    case 16: return synccheck(id, 0xB5);
    default: return {0x62};
  }
}
static std::vector<std::string> want(const Bytes &b) { U u; for (auto &p : scan(b)) u.body(p); return u.shown(); }
static void expect(Ctx &c, const std::vector<std::string> &w, const std::vector<std::string> &g, const std::string &how) {
  size_t n = w.size() < g.size() ? w.size() : g.size();
  for (size_t i = 0; i < n; i++) CHK(c, w[i] == g[i], "%s: output %zu is %.200s, expected %.200s", how.c_str(), i, g[i].c_str(), w[i].c_str());
  CHK(c, w.size() == g.size(), "%s: %zu messages sent, expected %zu (%.200s)", how.c_str(), g.size(), w.size(), w.size() > n ? w[n].c_str() : n < g.size() ? g[n].c_str() : "");
  c.traced(g.size()); for (auto &x : g) c.state(hash_str(x));
}
static const size_t CH[] = {0, 1, 2, 3, 5, 8, 13, 64, 255, 1024, 4093, 4095, 4096};
static std::vector<size_t> chunks(size_t n, size_t k) { std::vector<size_t> v; if (k) for (size_t p = 0; p < n; p += k) v.push_back(k); return v; }
static void judge(Ctx &c, const Bytes &b, const std::vector<size_t> &sp, const std::string &how) {
  U u; bool end = u.stream(b, sp); CHK(c, end, "%s: the converter does not report the end of input", how.c_str());
  expect(c, want(b), u.shown(), how);
}
static void mixed(Ctx &c) {
  int len = c.thorough ? 4 : 3; Bytes b; std::string how;
  for (int i = 0; i < len; i++) { int k = (int)c.choose(NSEG, "segment"); append(b, seg(k, (uint8_t)(i + 1))); how += std::string(i ? ", " : "") + SN[k]; }
  append(b, frame(hw(99))); b = tail(b); size_t ch = CH[c.choose(c.thorough ? 3 : 4, "reads")]; if (c.thorough && ch == 1) ch = 7;
  judge(c, b, chunks(b.size(), ch), how);
}
// one stream of all segments, split in every way into two reads, and near every segment border into three
static Bytes all_segments(std::vector<size_t> *border = nullptr) { Bytes b; for (int k = 0; k < NSEG; k++) { if (border) border->push_back(b.size()); append(b, seg(k, (uint8_t)(k + 1))); } return tail(b); }
static void splits(Ctx &c) {
  static std::vector<size_t> border; static Bytes b = all_segments(&border); size_t n = b.size(); static std::vector<std::string> w = want(b);
  size_t first = c.choose((uint32_t)n, "first read"); std::vector<size_t> sp = {first}; std::string how = fmt("reads of %zu bytes", first);
  if (first == 0) return;
  U u; bool end = u.stream(b, sp); CHK(c, end, "%s: no end reported", how.c_str()); expect(c, w, u.shown(), how);
  bool near = false; for (size_t p : border) if (first + 6 >= p && first <= p + 8) near = true;
  if (!near) return;
  for (size_t second = 1; second < (c.thorough ? 600u : 20u); second++) { U v; c.step(); end = v.stream(b, {first, second}); CHK(c, end, "%s, %zu: no end reported", how.c_str(), second); expect(c, w, v.shown(), how + fmt(" and %zu", second)); }
}
static void pieces(Ctx &c) { static Bytes b = all_segments(); size_t k = (size_t)c.choose(4200, "read size"); static Bytes p = cat(frame(hw(1)), cat(b, frame(pvt(2)))); judge(c, p, chunks(p.size(), k), fmt("reads of %zu bytes", k)); }
// every payload length, forwarded or not, followed by another message, starting at different places of the read buffer
static void sizes(Ctx &c) {
  static const size_t lead[] = {0, 1, 2, 3, 5, 100, 4085, 4090, 4091, 4092, 4095}; size_t n = (size_t)c.choose(4200, "payload length"), l = lead[c.choose(11, "bytes before")];
  Bytes d(n); for (size_t i = 0; i < n; i++) d[i] = (uint8_t)(i * 7 + n);
  for (int kind = 0; kind < 2; kind++) {
    Bytes b(l, 0x11); append(b, frame(msg(kind ? 0x02 : 0x0A, kind ? 0x77 : 0x09, d))); append(b, frame(velecef(7))); b = tail(b); judge(c, b, {}, fmt("payload of %zu bytes after %zu others", n, l));
    if (!kind && n + 4 <= sizeof(sbp_msg_fwd_t::fwd_payload)) {             // the whole message, byte by byte
      U u; u.stream(b); Bytes m = msg(0x0A, 0x09, d); bool ok = !u.out.empty() && u.out[0].type == SbpMsgFwd && u.out[0].m.fwd.protocol == 1 && u.out[0].m.fwd.n_fwd_payload == m.size() && !memcmp(u.out[0].m.fwd.fwd_payload, m.data(), m.size());
      CHK(c, ok, "hardware status of %zu bytes is not forwarded as it is", n);
    }
    // the announced message is really what the reference says
    size_t cnt = scan(b).size(); CHK(c, cnt == (n <= LIMIT ? 2u : 1u), "payload of %zu bytes: the reference finds %zu messages", n, cnt);
  }
}
// every claimed length of a message that has another length
static void claims(Ctx &c) {
  int hi = c.choose(256, "claimed length, high byte");
  for (int lo = 0; lo < 256; lo += c.thorough ? 1 : 3) { size_t n = (size_t)(hi << 8 | lo); Bytes b = claim(frame(hw(3, 10)), n); append(b, frame(hw(4))); append(b, frame(pvt(5))); append(b, claim(frame(hw(6)), (n * 7) & 0xFFF)); append(b, frame(velecef(8))); b = tail(b); c.step(); judge(c, b, chunks(b.size(), lo % 3 == 0 ? 0 : lo % 3 == 1 ? 9 : 512), fmt("claimed length %zu", n));
    // the same with a checksum that is right for a message of the length's lower bits
    size_t low = n & (lo & 1 ? 0xFFF : 0xFF); if (low > 300) continue;
    Bytes f = {0xB5, 0x62, 0x0A, 0x09, (uint8_t)n, (uint8_t)(n >> 8)}; f.resize(6 + low, 0x21); uint8_t x, y; ubxref::checksum(&f[2], f.size() - 2, x, y); f.push_back(x); f.push_back(y); append(f, frame(hw(4))); c.step(); judge(c, tail(f), {}, fmt("claimed length %zu, checksum right for %zu", n, low)); }
}
// end of input after every byte of a stream whose damaged messages still have the right length
static void cut(Ctx &c) {
  static const int ks[] = {0, 7, 1, 8, 3, 15, 10, 4, 16, 0, 11, 5, 2, 1}; static Bytes b; if (b.empty()) { uint8_t id = 1; for (int k : ks) append(b, seg(k, id++)); }
  size_t n = (size_t)c.choose((uint32_t)b.size() + 1, "end of input"), ch = CH[c.choose(5, "reads")];
  Bytes p(b.begin(), b.begin() + (long)n); judge(c, p, chunks(n, ch ? ch : 0), fmt("end after %zu bytes", n));
  if (ch) return;
  // reading on after the end finds nothing more, whatever the reader says
  U u; u.stream(p); size_t before = u.out.size(); for (int i = 0; i < 3; i++) CHK(c, ubx_sbp_process(u.st(), &U::rd) < 0, "the end of input after %zu bytes is forgotten", n); CHK(c, u.out.size() == before, "messages appear after the end of input");
}
// one damaged byte anywhere
static void flips(Ctx &c) {
  static Bytes b; if (b.empty()) { append(b, frame(hw(1, 9))); append(b, frame(velecef(2))); append(b, frame(hw(3, 0))); append(b, frame(inside(frame(hw(4))))); append(b, frame(pvt(5))); append(b, frame(hw(6))); }
  size_t p = (size_t)c.choose((uint32_t)b.size(), "position"); int v = c.choose(256, "value"); Bytes d = b; d[p] = (uint8_t)v; static const size_t r[] = {0, 4, 33};
  int second = c.dev((int)b.size() + 1, "second damaged byte"); if (second) { static const uint8_t w[] = {0xB5, 0x62, 0x00, 0x01, 0xFF, 0x80}; d[(size_t)second - 1] = w[c.choose(6, "its value")]; }
  d = tail(d); judge(c, d, chunks(d.size(), r[(p + (size_t)v) % 3]), fmt("byte %zu is %02x", p, v));
}
// one byte lost or put in anywhere
static void shifts(Ctx &c) {
  static Bytes b; if (b.empty()) { append(b, frame(hw(1, 9))); append(b, frame(velecef(2))); append(b, frame(hw(3, 0))); append(b, frame(inside(frame(hw(4))))); append(b, frame(pvt(5))); append(b, frame(hw(6))); }
  size_t p = (size_t)c.choose((uint32_t)b.size(), "position"); int k = c.choose(8, "what"); static const uint8_t w[] = {0xB5, 0x62, 0, 0xFF, 0x0A, 0x09}; Bytes d(b.begin(), b.begin() + (long)p);
  size_t lost = k == 6 ? 1 : k == 7 ? 3 : 0; if (k < 6) d.push_back(w[k]); if (p + lost < b.size()) d.insert(d.end(), b.begin() + (long)(p + lost), b.end());
  d = tail(d); judge(c, d, {}, fmt("at byte %zu: %s", p, k < 6 ? "one byte more" : "bytes lost"));
}
// a message whose checksum is also the start of a further message with a right checksum
static void overlap(Ctx &c) {
  size_t k = 1 + c.choose(2, "shared bytes"); int outer = c.choose(3, "outer"), in = c.choose(3, "inner"), lead = c.choose(NSEG, "before"), brk = c.choose(2, "outer damaged"); size_t ch = CH[c.choose(13, "reads")];
  Bytes d(outer == 0 ? 12 : outer == 1 ? 600 : LIMIT), inner = in == 0 ? frame(hw(9)) : in == 1 ? frame(pvt(3)) : frame(msg(0x0A, 0x09, {}));
  static Bytes memo[18]; Bytes &kept = memo[(k - 1) * 9 + (size_t)outer * 3 + (size_t)in]; bool ok = !kept.empty(); Bytes m = kept;
  for (uint32_t i = 0; i < 0x1000000 && !ok; i++) { d[3] = (uint8_t)(i >> 16); d[d.size() - 1] = (uint8_t)i; d[d.size() - 2] = (uint8_t)(i >> 8); m = frame(msg(0x0A, 0x09, d)); size_t n = m.size(); ok = k == 1 ? m[n - 1] == inner[0] : m[n - 2] == inner[0] && m[n - 1] == inner[1]; }
  CHK(c, ok, "cannot forge"); kept = m; if (brk) m[7] ^= 0x40;
  Bytes b = seg(lead, 1); append(b, m); append(b, Bytes(inner.begin() + (long)k, inner.end())); append(b, frame(velecef(8))); b = tail(b); judge(c, b, chunks(b.size(), ch), fmt("messages sharing %zu bytes (%d, %d, %s before, damaged %d)", k, outer, in, SN[lead], brk));
}
// the reader reports an error instead of data, and perhaps goes on afterwards
static void errors(Ctx &c) {
  static Bytes b; if (b.empty()) for (int k : {0, 1, 7, 0, 3, 1}) append(b, seg(k, (uint8_t)(k + 1)));
  size_t ch = (size_t)c.choose(40, "read size") + 1; size_t n = (b.size() + ch - 1) / ch; size_t at = (size_t)c.choose((uint32_t)b.size() + 1, "failing read"); if (at > n) return; static const int E[] = {0, -1, -5}; int with = E[c.choose(3, "error")];
  U u; u.fail_at = (long)at; u.fail_with = with; bool end = u.stream(b, chunks(b.size(), ch)); CHK(c, end, "failing read %zu of %zu bytes: no end reported", at, ch);
  size_t have = at * ch < b.size() ? at * ch : b.size(); Bytes head(b.begin(), b.begin() + (long)have), rest(b.begin() + (long)have, b.end()); auto w = want(head);
  expect(c, w, u.shown(), fmt("read %zu of %zu bytes fails with %d", at, ch, with));
  u.fail_at = -1; end = u.stream(rest, chunks(rest.size(), ch)); CHK(c, end, "going on after failing read %zu of %zu bytes: no end reported", at, ch);
  U v; for (auto &p : scan(head)) v.body(p); for (auto &p : scan(rest)) v.body(p); auto g = u.shown(); if (g == want(b)) return;      // kept what it had read of the interrupted message
  expect(c, v.shown(), g, fmt("going on after read %zu of %zu bytes failed with %d", at, ch, with));
}
// the program: options, whole streams
static std::vector<Emit> sent; static Bytes pin; static size_t ppos, pchunk; static long preads;
static void on_send(sbp_msg_type_t t, u16 sender, const sbp_msg_t *m, void *) { Emit e; e.sender = sender; e.type = (int)t; e.m = *m; sent.push_back(e); }
static int prd(uint8_t *b, size_t n, void *) { if (++preads > 100000) return -1; size_t k = pin.size() - ppos; if (pchunk && k > pchunk) k = pchunk; if (k > n) k = n; if (k) memcpy(b, &pin[ppos], k); ppos += k; return (int)k; }
static int pwr(uint8_t *, uint32_t n, void *) { return (int)n; }
static void program(Ctx &c) {
  int opt = c.choose(7, "options"), k = c.choose(NSEG, "first segment"), k2 = c.choose(NSEG, "second segment"); pchunk = CH[c.choose(4, "reads")];
  std::vector<std::string> a = {"ubx2sbp"}; unsigned sender = DEFAULT_UBX_SENDER_ID; bool hnr = false;
  switch (opt) { case 1: a.push_back("-s"); a.push_back("4660"); sender = 4660; break; case 2: a.push_back("-s"); a.push_back("0x1234"); sender = 0x1234; break; case 3: a.push_back("--sender_id"); a.push_back("65535"); sender = 65535; break; case 4: a.push_back("--sender_id=7"); sender = 7; break;
    case 5: a.push_back("--hnr"); hnr = true; break; case 6: a.push_back("--hnr"); a.push_back("-s"); a.push_back("1"); hnr = true; sender = 1; break; }
  static Shape h = hnr_pvt(); pin = seg(k, 1); append(pin, frame(h.bytes(h.pattern(2)))); append(pin, seg(k2, 2)); append(pin, frame(pvt(9))); pin = tail(pin); ppos = 0; preads = 0;
  std::vector<char *> av; for (auto &x : a) av.push_back(&x[0]); av.push_back(nullptr);
  sent.clear(); shim_on_send = on_send; optind = 0; int rc = ubx2sbp_main((int)a.size(), av.data(), "", prd, pwr, nullptr); shim_on_send = nullptr;
  U u; ubx_set_sender_id(u.st(), (uint16_t)sender); ubx_set_hnr_flag(u.st(), hnr); for (auto &p : scan(pin)) u.body(p);
  std::vector<std::string> g; for (auto &e : sent) g.push_back(ubxpipe::show(e));
  CHK(c, rc == 0, "program ends with %d", rc); expect(c, u.shown(), g, fmt("program with options %d on %s, %s", opt, SN[k], SN[k2]));
  for (auto &e : sent) CHK(c, e.sender == sender, "sender %u instead of %u", e.sender, sender);
  bool llh = false, att = false; for (auto &e : sent) { llh |= e.type == SbpMsgPosLlh; att |= e.type == SbpMsgOrientEuler; } CHK(c, llh && att == hnr, "positions %d and attitudes %d with options %d", llh, att, opt);
}
int main(int argc, char **argv) {
  Spec s; s.property = "C22";
  s.rule = "all sequences of 3 (4) of 18 kinds of segments; one stream of all kinds under every read size, every first read and every second read near segment borders; every payload length and claimed length; end of input after every byte; every value of every byte of a message stream (pairs in thorough); bytes lost and put in; read errors; the program with its options: outputs compared with those of the messages a scan of the whole stream finds";
  s.assumptions = {"after a damaged message the search goes on right behind its sync bytes; streams with damaged lengths end in enough other bytes to complete them", "payloads above 4090 bytes do not fit the converter"};
  s.scenarios = {{"mixed", mixed}, {"splits", splits}, {"pieces", pieces}, {"sizes", sizes}, {"claims", claims}, {"cut", cut}, {"flips", flips, 0, 1}, {"shifts", shifts}, {"overlap", overlap}, {"errors", errors}, {"program", program}};
  return run(argc, argv, s);
}
