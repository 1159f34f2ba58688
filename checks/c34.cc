// C34: RTCM to SBP: station positions, texts, warnings, forwarded and navigation data messages; what happens before time is known
#include <map>
#include <optional>
#include <set>
#include "obsref.hpp"
#include "rtcmfields.hpp"
using namespace mc; using namespace conv; using namespace obsref; using namespace msmref; namespace R = rtcmref;
static const uint32_t T0 = 345600000;
static uint32_t epoch_of(int cons, int64_t tow) {
  if (cons == GLO) { int64_t tod = (tow % DAY + 3 * 3600000ll - 18000 + DAY) % DAY; return (uint32_t)((4u << 27) | (uint32_t)tod); }
  if (cons == BDS) tow -= 14000;
  return (uint32_t)((tow + WEEK) % WEEK);
}
static uint64_t bit(int id) { return 1ull << (64 - id); }
static uint32_t sbit(int id) { return 1u << (32 - id); }
static Msg msg(int cons, int kind, uint64_t sats, uint32_t sigs, int64_t tow, bool more, int stn, uint32_t seed) {
  Msg m; m.cons = cons; m.kind = kind; m.sat_mask = sats; m.sig_mask = sigs; m.all_cells(); m.fill(seed); m.epoch = epoch_of(cons, tow); m.mult = more; m.stn = (uint32_t)stn; return m;
}
static bool early(int n) {   // messages that are converted before the time is known
  int k = kind(n); return n == 1005 || n == 1006 || n == 1029 || n == 4062 || n == 4075 || n == 1019 || n == 1042 || n == 1045 || n == 1046 || (k >= 1 && k <= 3);
}
static const std::set<int> &supported() {
  static std::set<int> s; if (!s.empty()) return s;
  for (int n : {1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1010, 1012, 1019, 1020, 1029, 1033, 1042, 1044, 1045, 1046, 1230, 4062, 4075}) s.insert(n);
  for (int a : {1057, 1063, 1240, 1246, 1258}) for (int k : {0, 1, 2, 3}) s.insert(a + k);
  for (int n = 1265; n <= 1270; n++) s.insert(n);
  for (int c = 0; c < 6; c++) for (int k = 1; k <= 7; k++) s.insert(base(c) + k);
  return s;
}
static Bytes warned(int num, int stn, bool more, size_t n = 30) { BitW b; b.u(12, (uint64_t)num); b.u(12, (uint64_t)stn); b.u(30, 0x2AAAAAAA); b.u(1, more); while (b.b.size() < n) b.u(8, 0x5A); b.b.resize(n); return b.b; }
static std::string text(const Emit &e) { return std::string(e.m.log.text.data, e.m.log.text.encoded_len); }
static void sane(Ctx &c, const Emit &e, const char *how) { if (e.type == SbpMsgLog) CHK(c, e.m.log.text.encoded_len <= 254, "%s: log of %zu bytes", how, e.m.log.text.encoded_len); }
static std::vector<R::Shape> &shapes() { static std::vector<R::Shape> v; if (v.empty()) { v = R::other_shapes(); for (auto &s : R::ssr_shapes()) v.push_back(s); for (auto &s : R::msm_shapes(false)) v.push_back(s); } return v; }
static Bytes item(uint32_t i, int &num, std::string &name) {   // every shape, then the messages MSM1 to MSM3
  auto &v = shapes(); if (i < v.size()) { num = v[i].num; name = v[i].name; auto r = v[i].defaults(); return v[i].bytes(r); }
  i -= (uint32_t)v.size(); num = base((int)(i % 6)) + 1 + (int)(i / 6 % 3); name = fmt("%d%s", num, i / 18 ? ", more" : ""); return warned(num, 77, i / 18 != 0);
}
static uint32_t items() { return (uint32_t)shapes().size() + 36; }
// ------------------------------------------------------------------ before the time is known
static void same(Ctx &c, const std::vector<std::string> &w, const std::vector<std::string> &g, const std::string &how) {
  for (size_t i = 0; i < w.size() && i < g.size(); i++) CHK(c, w[i] == g[i], "%s: output %zu is %.200s, otherwise %.200s", how.c_str(), i, g[i].c_str(), w[i].c_str());
  CHK(c, w.size() == g.size(), "%s: %zu messages sent, otherwise %zu (%.200s)", how.c_str(), g.size(), w.size(), g.size() > w.size() ? g[w.size()].c_str() : w.size() > g.size() ? w[g.size()].c_str() : "");
  c.traced(g.size()); for (auto &x : g) c.state(hash_str(x));
}
static void close(R2S &r) { r.payload(warned(1071, 5, false)); }
static void gate(Ctx &c) {
  uint32_t n = items(), i = c.choose(n, "message"); int num; std::string name; Bytes p = item(i, num, name); c.at("%s before the time is known", name.c_str());
  R2S a; for (int k = 0; k < 3; k++) { a.payload(p); c.step(); }
  if (!early(num)) { CHK(c, a.out.empty(), "%s is converted before the time is known: %s", name.c_str(), show(a.out[0]).c_str()); CHK(c, a.stale.empty(), "%s: age of observations reported before the time is known", name.c_str()); }
  bool eph = num == 1019 || num == 1042 || num == 1045 || num == 1046;
  if (early(num) && !eph) { R2S b(0x5A); b.know(2100, 345600); for (int k = 0; k < 3; k++) b.payload(p); same(c, b.shown(), a.shown(), name + " before the time is known"); }
  // then the time becomes known, then another message: nothing is left over from the first
  for (uint32_t j = 0; j < n; j++) {
    int m; std::string nm; Bytes q = item(j, m, nm); if (kind(m) >= 1 && kind(m) <= 3 && kind(num) >= 1 && kind(num) <= 3) continue;
    R2S x, y(0x3C); c.at("%s, then the time, then %s", name.c_str(), nm.c_str());
    x.payload(p); x.take(); x.know(2100, 345600); y.know(2100, 345600);
    if (kind(num) >= 1 && kind(num) <= 3) y.payload(p), y.take();   // its warning is sent once only
    for (R2S *z : {&x, &y}) { z->payload(q); close(*z); c.step(); }
    same(c, y.shown(), x.shown(), name + " before the time is known, then " + nm);
  }
  c.state(mix(i, a.out.size())); c.traced();
}
// ------------------------------------------------------------------ numbers that are not supported
static void unsupported(Ctx &c) {
  uint32_t num = c.choose(4096, "number"); bool sup = supported().count((int)num) != 0; if (sup) return; bool block = num >= 1070 && num <= 1229; auto &v = shapes();
  R2S r; r.know(2100, 345600); Model m(2100, T0, 18);
  Msg part = msg(GPS, 4, bit(3) | bit(9), sbit(2), T0, true, 6, 11); r.payload(part.bytes()); m.feed(part); CHK(c, r.out.empty(), "a partial epoch is sent");
  for (size_t k = 0; k < v.size() + 36; k++) {
    int was; std::string nm; Bytes b = item((uint32_t)k, was, nm); b[0] = (uint8_t)(num >> 4); b[1] = (uint8_t)((num & 15) << 4 | (b[1] & 15));
    c.at("message %u with the content of %s", num, nm.c_str()); r.payload(b); c.step();
    for (auto &e : r.out) CHK(c, block && e.type == SbpMsgObs, "message %u with the content of %s: %s is sent", num, nm.c_str(), show(e).c_str());
    r.out.clear();
  }
  if (!block) { Msg last = msg(GAL, 5, bit(4), sbit(2), T0, false, 6, 12); r.payload(last.bytes()); m.feed(last); compare(c, m, r, fmt("epoch with messages %u in between", num).c_str()); }
  c.state(num); c.traced();
}
// ------------------------------------------------------------------ texts
static void put_char(Bytes &b, int w, int var) {
  static const uint8_t S[5][3][4] = {{}, {{'a'}, {0x7F}, {' '}}, {{0xC3, 0xA9}, {0xC2, 0x80}, {0xDF, 0xBF}}, {{0xE2, 0x82, 0xAC}, {0xE0, 0xA0, 0x80}, {0xEF, 0xBF, 0xBD}}, {{0xF0, 0x9F, 0x98, 0x80}, {0xF0, 0x90, 0x80, 0x80}, {0xF4, 0x8F, 0xBF, 0xBF}}};
  for (int i = 0; i < w; i++) b.push_back(S[w][var][i]);
}
static Bytes m1029(int stn, const Bytes &t, int chars = -1, int day = 59000, int sec = 65000) {
  BitW b; b.u(12, 1029); b.u(12, (uint64_t)stn); b.u(16, (uint64_t)day); b.u(17, (uint64_t)sec); b.u(7, (uint64_t)(chars < 0 ? (t.size() > 127 ? 127 : t.size()) : chars)); b.u(8, t.size()); for (uint8_t x : t) b.u(8, x); return b.b;
}
static void judge_text(Ctx &c, const Bytes &t, int stn, bool known, const Bytes &m, const std::string &how) {
  size_t end = 0; for (size_t p = 0; p < t.size();) { size_t w = t[p] < 0x80 ? 1 : t[p] < 0xE0 ? 2 : t[p] < 0xF0 ? 3 : 4; p += w; if (p > 248 || p > t.size()) break; end = p; }
  R2S r(0x77); if (known) r.know(2100, 345600); c.at("%s", how.c_str()); r.payload(m); c.step(); CHK(c, r.out.size() == 1 && r.out[0].type == SbpMsgLog, "%s: %zu messages sent", how.c_str(), r.out.size());
  auto &e = r.out[0]; CHK(c, e.sender == sender(stn), "%s: sender %04x, expected %04x", how.c_str(), e.sender, sender(stn)); CHK(c, e.m.log.level == 6, "%s: level %d", how.c_str(), e.m.log.level);
  std::string w = "RTCM: " + std::string(t.begin(), t.begin() + (long)end), g = text(e);
  CHK(c, g == w, "%s: %zu bytes sent, expected %zu (\"%.20s\" ... %s, expected %s)", how.c_str(), g.size(), w.size(), g.c_str(), hex(Bytes(g.end() - (long)std::min<size_t>(g.size(), 6), g.end())).c_str(), hex(Bytes(w.end() - (long)std::min<size_t>(w.size(), 6), w.end())).c_str());
  c.traced(); c.state(hash_str(g));
}
static void texts(Ctx &c) {
  uint32_t n = c.choose(256, "length"); int fill = 1 + (int)c.choose(4, "character size"), var = (int)c.choose(3, "character"), stn = (int[]){0, 1, 2048, 4095, 0x5A5}[c.choose(5, "station")]; bool known = c.choose(2, "time known"); int f = (int)c.choose(3, "counters");
  Bytes t; while (t.size() + (size_t)fill <= n) put_char(t, fill, var); while (t.size() < n) t.push_back('z');
  judge_text(c, t, stn, known, f == 0 ? m1029(stn, t) : f == 1 ? m1029(stn, t, 0, 0, 0) : m1029(stn, t, 127, 65535, 86400), fmt("text of %u bytes, characters of %d bytes, station %d", n, fill, stn));
}
static void text_cut(Ctx &c) {   // characters of every size around the place where a text must be cut
  uint32_t lead = 236 + c.choose(13, "bytes before"); int len = c.thorough ? 7 : 6; Bytes t; for (uint32_t i = 0; i < lead; i++) t.push_back((uint8_t)('a' + i % 26)); std::string how = fmt("text of %u bytes, then characters of", lead); int v = c.thorough ? (int)c.choose(3, "character") : (int)(lead % 3);
  for (int i = 0; i < len; i++) { int w = 1 + (int)c.choose(4, "size"); if (t.size() + (size_t)w > 255) break; put_char(t, w, (v + i) % 3); how += fmt(" %d", w); }
  judge_text(c, t, 7, true, m1029(7, t), how);
}
static void text_bytes(Ctx &c) {   // not valid UTF-8: a leading part, at most three bytes short
  uint32_t n = c.choose(256, "length"), a = c.choose(16, "byte"), b = c.choose(16, "last bytes"); static const uint8_t P[16] = {0, 1, 0x7F, 0x80, 0xBF, 0xC0, 0xC3, 0xDF, 0xE0, 0xE2, 0xEF, 0xF0, 0xF4, 0xF7, 0xF8, 0xFF};
  Bytes t(n, P[a]); for (uint32_t i = 1; i <= 3 && i <= n; i++) t[n - i] = P[(b + i) % 16]; R2S r; r.payload(m1029(9, t)); c.step(); CHK(c, r.out.size() == 1 && r.out[0].type == SbpMsgLog, "%zu messages for a text", r.out.size());
  std::string w = "RTCM: " + std::string(t.begin(), t.end()), g = text(r.out[0]); size_t full = std::min<size_t>(w.size(), 254), least = w.size() < 254 ? full : 251;
  CHK(c, g.size() >= least && g.size() <= full && w.compare(0, g.size(), g) == 0, "text of %u bytes %02x: %zu bytes sent", n, P[a], g.size()); c.traced(); c.state(hash_str(g));
}
// ------------------------------------------------------------------ station positions
static void judge_base(Ctx &c, const R::Shape &s, const R::Raw &r, bool known, const std::string &how) {
  auto at = [&](const char *n) { for (size_t i = 0; i < s.f.size(); i++) if (s.f[i].name == n) return (long long)r[i]; abort(); };
  R2S q(0x99); if (known) q.know(2100, 345600); q.payload(s.bytes(r)); c.step(); CHK(c, q.out.size() == 1 && q.out[0].type == SbpMsgBasePosEcef, "%s: %zu messages", how.c_str(), q.out.size());
  auto &e = q.out[0]; auto &p = e.m.base_pos_ecef; CHK(c, e.sender == sender((int)at("station")), "%s: sender %04x of station %lld", how.c_str(), e.sender, at("station"));
  auto is = [](double g, long long raw) { double w = (double)raw * 0.0001; return std::fabs(g - w) <= 1e-8; };
  CHK(c, is(p.x, at("x")) && is(p.y, at("y")) && is(p.z, at("z")), "%s: %.4f %.4f %.4f from %lld %lld %lld", how.c_str(), p.x, p.y, p.z, at("x"), at("y"), at("z")); c.traced(); c.state(mix((uint64_t)at("x"), mix((uint64_t)at("y"), (uint64_t)at("z"))));
}
static void bases(Ctx &c) {
  bool h = c.choose(2, "message") != 0; R::Shape s = h ? R::m1006() : R::m1005(); uint32_t f = c.choose((uint32_t)s.f.size(), "field"), bg = c.choose(c.thorough ? 12 : 5, "background"); bool known = c.choose(2, "time known"); if (s.f[f].fixed) return; R::Raw r = R::background(s, bg);
  for (uint64_t p : R::patterns(s.f[f], 12)) { r[f] = R::Shape::trim(s.f[f], p); judge_base(c, s, r, known, fmt("%s with %s = %lld", s.name.c_str(), s.f[f].name.c_str(), (long long)r[f])); }
}
// ------------------------------------------------------------------ warnings
static const char *WM = "MSM1-3 Messages currently not supported", *WU = "Unsupported code received from base: Unknown or Unrecognized Code", *W1 = "Unsupported code received from base: GLONASS L1P", *W2 = "Unsupported code received from base: GLONASS L2P", *WI = "RTCM MSM sequence not properly finished, sending incomplete message", *WF = "Too many RTCM observations received!";
struct Log { int level; std::string s; int stn; };
static void logs(Ctx &c, R2S &r, const std::vector<Log> &want, const std::string &how) {
  size_t k = 0;
  for (auto &e : r.take()) {
    if (e.type != SbpMsgLog) continue;
    sane(c, e, how.c_str()); std::string t = text(e); while (!t.empty() && !t.back()) t.pop_back();
    CHK(c, k < want.size(), "%s: unexpected \"%s\"", how.c_str(), t.c_str()); auto &w = want[k++]; c.traced();
    CHK(c, t == w.s && e.m.log.level == w.level, "%s: level %d \"%s\", expected %d \"%s\"", how.c_str(), e.m.log.level, t.c_str(), w.level, w.s.c_str()); CHK(c, e.sender == sender(w.stn), "%s: \"%s\" from %04x, expected %04x", how.c_str(), t.c_str(), e.sender, sender(w.stn));
  }
  CHK(c, k == want.size(), "%s: no \"%s\"", how.c_str(), k < want.size() ? want[k].s.c_str() : ""); c.state(mix(hash_str(how), k));
}
static Leg pcode(int num, int64_t tow, int c1, int c2) { Leg l; l.num = num; l.stn = 44; l.t = epoch_of(GLO, tow) & 0x7FFFFFF; LegSat s; s.id = 5; s.code1 = c1; s.code2 = c2; s.amb = 36; s.fcn = 9; l.s.push_back(s); return l; }
static void warnings(Ctx &c) {
  static const char *N[] = {"MSM1 of GPS", "MSM2 of BeiDou", "MSM3 of QZSS", "unknown signal in 1077", "unknown signal in 1094", "P code on L1 in 1010", "P code on L1 in 1012", "P code on L2 in 1012", "P code on both", "1004", "new start"}; enum { K = 11 };
  int len = c.thorough ? 5 : 4; R2S r; std::string how; bool sm = false, su = false, s1 = false, s2 = false; int64_t tow = T0;
  auto know = [&] { r.know(2100, (double)tow / 1000); }; know();
  for (int i = 0; i < len; i++) {
    int k = (int)c.choose(K, "message"); how += std::string(i ? ", " : "") + N[k]; std::vector<Log> w; tow += 10000; know();
    int stn = 10 + i;
    if (k <= 2) { if (!sm) w.push_back({4, WM, stn}); sm = true; r.payload(warned(k == 0 ? 1071 : k == 1 ? 1122 : 1113, stn, i % 2)); }
    else if (k <= 4) { if (!su) w.push_back({4, WU, 0}); su = true; Msg m = k == 3 ? msg(GPS, 7, bit(2), sbit(1) | sbit(2), tow, false, stn, 5) : msg(GAL, 4, bit(2) | bit(7), sbit(2) | sbit(31), tow, false, stn, 5); r.payload(m.bytes()); }
    else if (k <= 8) { int c1 = k != 7, c2 = k >= 7; if (c1 && !s1) { w.push_back({4, W1, 0}); s1 = true; } if (c2 && !s2) { w.push_back({4, W2, 0}); s2 = true; } r.payload(pcode(k == 5 ? 1010 : 1012, tow, c1, c2 ? 1 + i % 3 : 0).bytes()); }
    else if (k == 9) { Leg l; l.num = 1004; l.t = (uint32_t)tow; l.s.push_back(LegSat()); r.payload(l.bytes()); }
    else { r.init(); sm = su = s1 = s2 = false; }
    c.step(); logs(c, r, w, how);
  }
}
static void signal_warnings(Ctx &c) {   // which signals are unknown
  int cons = (int[]){GPS, GLO, GAL, BDS}[c.choose(4, "constellation")], k = 4 + (int)c.choose(4, "kind"), a = 1 + (int)c.choose(32, "signal"), b = (int)c.choose(33, "another"); bool have = c.choose(2, "cell present"); if (b == a) return;
  Msg m; m.cons = cons; m.kind = k; m.sat_mask = bit(3) | bit(5); m.sig_mask = sbit(a) | (b ? sbit(b) : 0); m.all_cells(); if (!have) for (size_t i = 0; i < m.cells.size(); i++) { bool first = (i % (b ? 2 : 1)) == (size_t)(b && b < a); if (first) m.cells[i] = false; }
  m.fill(3); m.epoch = epoch_of(cons, T0); m.mult = 1; m.stn = 20; bool unk = (have && code_at(cons, a) == CODE_INVALID) || (b && code_at(cons, b) == CODE_INVALID);
  R2S r; r.know(2100, 345600); std::string how = fmt("message %d with signals %d and %d%s", base(cons) + k, a, b, have ? "" : ", the first without cells"); c.at("%s", how.c_str());
  r.payload(m.bytes()); c.step(); logs(c, r, unk ? std::vector<Log>{{4, WU, 0}} : std::vector<Log>{}, how); r.payload(m.bytes()); logs(c, r, {}, how + ", again");
}
static void early_warnings(Ctx &c) {   // MSM1 to MSM3: every number, station and length
  int cons = (int)c.choose(6, "constellation"), k = 1 + (int)c.choose(3, "kind"), stn = (int)c.choose(4096, "station"); if (!c.thorough && stn % 64 && ((stn & (stn - 1)) != 0) && stn % 64 != 63) return; int num = base(cons) + k;
  for (int more = 0; more < 2; more++) for (size_t n : {3, 7, 8, 30}) for (int known = 0; known < 2; known++) {
    R2S r(0x42); if (known) r.know(2100, 345600); Bytes b = warned(num, stn, more, n); std::string how = fmt("%d of %zu bytes from %d", num, n, stn); c.at("%s", how.c_str());
    r.payload(b); c.step(); std::vector<Log> w = {{4, WM, stn}}; if (n == 3 && r.out.empty()) continue;   // shorter than any such message: may be ignored
    for (auto &e : r.out) CHK(c, e.type == SbpMsgLog || (e.type == SbpMsgObs && !e.m.obs.n_obs && !more), "%s: %s", how.c_str(), show(e).c_str());
    logs(c, r, w, how); r.payload(warned(base((cons + 1) % 6) + k, stn ^ 1, more)); logs(c, r, {}, how + ", again");
  }
}
static void unfinished(Ctx &c) {   // a sequence of multi-signal messages interrupted by another epoch or station
  int len = c.thorough ? 6 : 5; R2S r; r.know(2100, 345600); std::string how; bool full = false; int64_t bt = 0; int bs = 0; Model m(2100, T0, 18);
  for (int i = 0; i < len; i++) {
    int k = (int)c.choose(3, "what"), d = (int)c.choose(2, "epoch"), s = (int)c.choose(2, "station"), more = k < 2; if (i == 0 && (d || s)) return;
    // what: 0 observations, more to come; 1 the same without satellites; 2 last of its epoch
    int64_t t = i ? bt + (d ? 1000 : 0) : T0; int stn = i ? (s ? 51 - bs : bs) : 20; int cons = (int[]){GPS, GAL, BDS, GLO}[i % 4]; uint64_t sm = k == 1 ? 0 : bit(1 + i) | bit(10 + i); Msg q = msg(cons, 4 + i % 4, sm, cons == GLO ? sbit(2) | sbit(8) : sbit(2), t, more, stn, (uint32_t)i + 1); q.sats.resize((size_t)q.nsat()); 
    how += fmt("%s%s%s%s", i ? ", " : "", k == 0 ? "some, more to come" : k == 1 ? "none, more to come" : "last", d ? " of the next epoch" : "", s ? " from another station" : ""); c.at("%s", how.c_str());
    bool cut = full && (t != bt || stn != bs); m.feed(q); r.payload(q.bytes()); c.step(); bt = t; bs = stn; if (cut) full = false; full = (full || k != 1) && more;
    // the warning comes before the observations
    bool seen = false; for (auto &e : r.out) { if (e.type == SbpMsgLog) seen = true; else if (e.type == SbpMsgObs && cut && e.m.obs.header.t.tow != (uint32_t)(t % WEEK)) CHK(c, seen, "%s: the incomplete epoch is sent before the warning", how.c_str()); }
    auto out = r.out; logs(c, r, cut ? std::vector<Log>{{4, WI, 0}} : std::vector<Log>{}, how); r.out = out; compare(c, m, r, how.c_str());
  }
}
static void too_many(Ctx &c) {   // more observations than an epoch holds
  int len = c.thorough ? 8 : 6; R2S r; r.know(2100, 345600); int n = 0; std::string how; static const int S[] = {0, 14, 35, 56, 64};
  for (int i = 0; i < len; i++) {
    int k = S[c.choose(5, "cells")], cons = (int[]){GPS, GAL, BDS}[i % 3], ng = k == 64 ? 4 : k == 14 ? 2 : k == 35 ? 5 : 7, ns = k / ng; static const int SG[3][7] = {{2, 3, 9, 15, 16, 22, 23}, {2, 4, 8, 10, 14, 15, 22}, {2, 14, 22, 23, 24, 4, 10}}; uint32_t g = 0; uint64_t sm = 0;
    if (cons == BDS) { ng = 1; ns = k > 45 ? 45 : k; }
    for (int z = 0; z < ng; z++) g |= sbit(SG[i % 3][z]); for (int z = 0; z < ns; z++) sm |= bit(1 + z); Msg q = msg(cons, 4, sm, g, T0, true, 3, (uint32_t)i + 1); int add = 0; for (auto &x : cells(q, std::vector<int>(64, -1))) { (void)x; add++; }
    how += fmt("%s%d", i ? ", " : "", add); c.at("%s measurements", how.c_str()); r.payload(q.bytes()); c.step(); bool over = n + add > 210; n = over ? 210 : n + add; CHK(c, r.out.size() == (size_t)over, "%s measurements: %zu messages", how.c_str(), r.out.size()); logs(c, r, over ? std::vector<Log>{{3, WF, 0}} : std::vector<Log>{}, how);
  }
}
// ------------------------------------------------------------------ forwarded messages
static void forwarded(Ctx &c) {
  uint32_t n = c.choose(256, "length"), t = c.choose(8, "type"), s = c.choose(6, "sender"); bool known = c.choose(2, "time known"); static const uint32_t T[] = {0, 1, 0x00FF, 0xFF00, 0x1234, 0x8001, 0xFFFE, 0xFFFF}, S[] = {0, 1, 0x42, 0x8000, 0xF123, 0xFFFF};
  for (int pat = 0; pat < 4; pat++) {
    Bytes d(n); for (size_t i = 0; i < n; i++) d[i] = pat == 0 ? (uint8_t)(i * 37 + 5) : pat == 1 ? 0 : pat == 2 ? 0xFF : (uint8_t)(0xD3 ^ (i * i));
    BitW b; b.u(12, 4062); b.u(4, 0); b.u(16, T[t]); b.u(16, S[s]); b.u(8, n); for (uint8_t x : d) b.u(8, x);
    R2S r(0x66); if (known) r.know(2100, 345600); c.at("forwarded message of %u bytes", n); r.payload(b.b); c.step(); CHK(c, r.out.size() == 1, "message of %u bytes: %zu sent", n, r.out.size()); auto &e = r.out[0];
    CHK(c, e.type == (int)T[t] && e.sender == S[s], "type %04x from %04x becomes %04x from %04x", T[t], S[s], e.type, e.sender); Bytes g(e.m.raw.raw, e.m.raw.raw + e.m.raw.n); CHK(c, g == d, "%u bytes of content change: %s", n, hex(g).c_str());
    c.traced(); c.state(mix(n, mix(t, s * 4 + (uint64_t)pat)));
    if (n) { b.b.pop_back(); R2S q; q.payload(b.b); CHK(c, q.out.empty(), "a message cut short by a byte is forwarded"); }
  }
}
// ------------------------------------------------------------------ navigation data
struct Frame { int sys = 3, sat = 17, ext = 0, sig = 0; uint32_t epoch = 0; int track = 1, size = 250; Bytes bits; };   // one bit per byte
static Bytes sbas(int pre, int type, uint32_t seed, int size) {
  Bytes v((size_t)size); for (int i = 0; i < size; i++) v[(size_t)i] = mix(seed, (uint64_t)i) >> 20 & 1;
  if (size < 250) return v;
  for (int i = 0; i < 8; i++) v[(size_t)i] = pre >> (7 - i) & 1; for (int i = 0; i < 6; i++) v[(size_t)(8 + i)] = type >> (5 - i) & 1;
  uint32_t q = 0; for (int i = 0; i < 226; i++) { q ^= (uint32_t)v[(size_t)i] << 23; q <<= 1; if (q & 0x1000000) q ^= 0x1864CFB; } for (int i = 0; i < 24; i++) v[(size_t)(226 + i)] = q >> (23 - i) & 1;
  return v;
}
static Bytes m4075(int stn, const std::vector<Frame> &fs, int res = 0) {
  BitW b; b.u(12, 4075); b.u(12, (uint64_t)stn); b.u(2, (uint64_t)res); b.u(6, fs.size());
  for (auto &f : fs) { b.u(4, (uint64_t)f.sys); b.u(6, (uint64_t)f.sat); b.u(4, (uint64_t)f.ext); b.u(5, (uint64_t)f.sig); b.u(30, f.epoch); b.u(1, (uint64_t)f.track); b.u(12, (uint64_t)f.size); for (uint8_t x : f.bits) b.u(1, x); }
  return b.b;
}
// what a frame must become; nothing if it must be ignored. Sizes are whole words here.
static std::optional<Emit> becomes(const Frame &f, int stn) {
  if (f.sys != 3 || (f.size + 31) / 32 < 8 || (f.size + 31) / 32 > 9 || f.sat > 38) return {};
  auto get = [&](int p, int n) { uint32_t v = 0; for (int i = 0; i < n; i++) v = v << 1 | f.bits[(size_t)(p + i)]; return v; };
  uint32_t pre = get(0, 8); if (pre != 0x53 && pre != 0x9A && pre != 0xC6) return {};
  uint32_t q = 0; for (int i = 0; i < 226; i++) { q ^= (uint32_t)f.bits[(size_t)i] << 23; q <<= 1; if (q & 0x1000000) q ^= 0x1864CFB; } if ((q & 0xFFFFFF) != get(226, 24)) return {};
  Emit e; memset(&e.m, 0, sizeof e.m); e.sender = sender(stn); e.type = SbpMsgSbasRaw; auto &o = e.m.sbas_raw; o.sid.sat = (u8)(f.sat + 120); o.sid.code = CODE_SBAS_L1CA; o.tow = f.epoch; o.message_type = (u8)get(8, 6); for (int i = 0; i < 26; i++) o.data[i] = (u8)get(14 + 8 * i, 8); o.data[26] = (u8)(get(222, 4) << 4); return e;
}
static void judge_nav(Ctx &c, int stn, const std::vector<Frame> &fs, bool known, const std::string &how) {
  R2S r(0x21); if (known) r.know(2100, 345600); c.at("%s", how.c_str()); r.payload(m4075(stn, fs)); c.step(); size_t k = 0;
  for (auto &f : fs) { auto w = becomes(f, stn); if (!w) continue; CHK(c, k < r.out.size(), "%s: frame of satellite %d is lost", how.c_str(), f.sat); std::string g = show(r.out[k++]), e = show(*w); CHK(c, g == e, "%s: sent %s, expected %s", how.c_str(), g.c_str(), e.c_str()); c.traced(); c.state(hash_str(g)); }
  CHK(c, k == r.out.size(), "%s: unexpected %s", how.c_str(), show(r.out[k]).c_str());
}
static const int PRE[] = {0x53, 0x9A, 0xC6};
static void nav(Ctx &c) {   // one field after the other
  int f = (int)c.choose(8, "field"); bool known = c.choose(2, "time known"); uint32_t p = c.choose(3, "preamble"), seed = c.choose(c.thorough ? 40 : 4, "content"); int size = c.choose(2, "words") ? 288 : 256; int stn = 0x321;
  auto one = [&](Frame x, int st, const char *w, long long v) { judge_nav(c, st, {x}, known, fmt("SBAS frame of %d bits, %s %lld", x.size, w, v)); };
  Frame b; b.size = size; b.epoch = 345600000; b.bits = sbas(PRE[p], 2, seed, size);
  if (f == 0) for (int s = 0; s < 64; s++) for (int sys = 0; sys < 16; sys++) { Frame x = b; x.sat = s; x.sys = sys; one(x, stn, fmt("system %d, satellite", sys).c_str(), s); }
  if (f == 1) for (int t = 0; t < 64; t++) { Frame x = b; x.bits = sbas(PRE[p], t, seed, size); one(x, stn, "type", t); }
  if (f == 2) for (int q = 0; q < 256; q++) { Frame x = b; x.bits = sbas(q, 9, seed, size); one(x, stn, "preamble", q); }
  if (f == 3) for (int e = 0; e < 512; e++) { Frame x = b; x.ext = e & 15; x.sig = e >> 4 & 31; one(x, stn, "signal", e); }
  if (f == 4) for (uint32_t e : {0u, 1u, 999u, 1000u, 604799000u, 604799999u, 604800000u, (1u << 30) - 1, 1u << 29, 0x15555555u}) for (int t = 0; t < 2; t++) { Frame x = b; x.epoch = e; x.track = t; one(x, stn, "time", e); }
  if (f == 5) for (int s = 0; s < 4096; s += c.thorough ? 1 : 13) one(b, s, "station", s);
  if (f == 6) for (int i = 0; i < size; i++) { Frame x = b; x.bits[(size_t)i] ^= 1; one(x, stn, "flipped bit", i); }
  if (f == 7) for (int w = 0; w < 16; w++) { Frame x = b; x.size = 32 * w; x.bits = w == 8 || w == 9 ? sbas(PRE[p], 3, seed, x.size) : sbas(PRE[p], 3, seed, x.size); one(x, stn, "words", w); }
}
static void nav_two_bits(Ctx &c) {   // two damaged bits
  uint32_t i = c.choose(250, "bit"), p = c.choose(3, "preamble"); Frame b; b.size = 256; b.epoch = 5; b.bits = sbas(PRE[p], 25, 7, 256); b.bits[i] ^= 1; uint32_t far = c.thorough ? 250 : std::min(250u, i + 40);
  for (uint32_t j = i + 1; j < far; j++) { Frame x = b; x.bits[j] ^= 1; judge_nav(c, 3, {x}, true, fmt("SBAS frame with bits %u and %u flipped", i, j)); }
}
static void nav_sequence(Ctx &c) {   // several frames in one message, in order
  int len = 1 + (int)c.choose(c.thorough ? 5 : 4, "frames"); std::vector<Frame> v; std::string how = "frames:";
  static const char *N[] = {"SBAS", "SBAS of 9 words", "damaged SBAS", "GPS of 300 bits", "Galileo of 1 bit", "empty", "SBAS of unknown satellite"};
  for (int i = 0; i < len; i++) {
    int k = (int)c.choose(7, "frame"); how += std::string(i ? ", " : " ") + N[k]; Frame f; f.epoch = 1000u * (uint32_t)(i + 1); f.sat = i * 3 + 1; f.size = k == 1 ? 288 : k == 3 ? 300 : k == 4 ? 1 : k == 5 ? 0 : 256; f.bits = sbas(PRE[i % 3], 10 + i, (uint32_t)(i * 10 + k), f.size);
    if (k == 2) f.bits[100] ^= 1; if (k == 3) f.sys = 0; if (k == 4) f.sys = 2; if (k == 5) f.sys = 3; if (k == 6) f.sat = 50; v.push_back(f);
  }
  judge_nav(c, 12, v, true, how); if (len > 1) { Bytes b = m4075(12, v); if (v.back().size >= 16) { b.pop_back(); b.pop_back(); R2S r; r.payload(b); for (auto &e : r.out) { std::string g = show(e); bool any = false; for (auto &f : v) { auto w = becomes(f, 12); any = any || (w && show(*w) == g); } CHK(c, any, "cut short, %s: %s", how.c_str(), g.c_str()); } } R2S q; q.payload(m4075(12, v, 1 + len % 3)); CHK(c, q.out.empty(), "reserved bits set: %zu messages", q.out.size()); }
}
static void nav_sizes(Ctx &c) {   // sizes that are not whole words: nothing, or exactly the message of the first 250 bits
  int size = (int)c.choose(4096, "size"); if (size % 32 == 0) return; R2S r; Frame f; f.size = size; f.epoch = 77; f.bits = sbas(PRE[size % 3], 4, (uint32_t)size, size); r.payload(m4075(8, {f})); c.step();
  if (r.out.empty()) { c.state((uint64_t)size); c.traced(); return; } auto w = becomes(f, 8); CHK(c, size >= 250 && w && r.out.size() == 1 && show(r.out[0]) == show(*w), "frame of %d bits: %s", size, show(r.out[0]).c_str()); c.state((uint64_t)size); c.traced();
}
int main(int argc, char **argv) {
  all_constellations();
  Spec s; s.property = "C34"; s.rule = "every message sent is compared, field by field, with what the RTCM message says; states and sequences of messages are enumerated; with the time unknown only the messages that need no time are converted, and nothing else leaves a trace";
  s.assumptions = {"the stand-in sbp_message_decode keeps the payload as raw bytes, so that forwarded content is compared byte for byte", "texts are cut at 254 bytes, the size of the text of a log message; texts that are not UTF-8 may lose up to three bytes more", "a message MSM1 to MSM3 too short to hold a station may be ignored", "numbers 1070 to 1229 without a meaning of their own may end an epoch (they share the multiple message bit)", "navigation data frames of 8 or 9 words whose size is not a whole number of words: either ignored or converted exactly"};
  s.scenarios = {{"gate", gate}, {"unsupported", unsupported}, {"texts", texts}, {"text_cut", text_cut}, {"text_bytes", text_bytes}, {"bases", bases}, {"warnings", warnings}, {"signal_warnings", signal_warnings}, {"early_warnings", early_warnings}, {"unfinished", unfinished}, {"too_many", too_many}, {"forwarded", forwarded}, {"nav", nav}, {"nav_two_bits", nav_two_bits}, {"nav_sequence", nav_sequence}, {"nav_sizes", nav_sizes}};
  return run(argc, argv, s);
}
