// C25: u-blox navigation data: an ephemeris comes only from one consistent page set
#include <map>
#include <unordered_map>
#include <deque>
#include "ubxpipe.hpp"
using namespace mc; using namespace ubxref; using namespace ubxpipe;
static uint64_t mixn(uint64_t h) { return h; }
template <class... T> static uint64_t mixn(uint64_t h, uint64_t v, T... r) { return mixn(mc::mix(h, v), r...); }
enum { GPS, BDS, GAL, GLO };
static const char *KN[4] = {"GPS", "BDS", "GAL", "GLO"};
static const int NT[4] = {3, 3, 5, 5}, GNSS[4] = {0, 3, 2, 6}, NSAT[4] = {32, 63, 36, 28}, NW[4] = {10, 10, 9, 4};
// ------------------------------------------------------------------ pages, from the signal descriptions
// issue: GPS issue of data (8 bits), BDS 30 s frame of the week, GAL issue of data (10 bits), GLO superframe (16 bits)
struct Page { int kind, prn, type, issue, var = 0; int tow = -1; bool undecodable = false; int flip = -1; };
static bool has_issue(const Page &p) { return !(p.kind == GAL && p.type == 5); }
static uint32_t pat(const Page &p, int i) { uint64_t z = mixn(0x9E37, (uint64_t)(p.kind * 7 + p.type), (uint64_t)p.prn * 1024 + (uint64_t)i, (uint64_t)(p.var * 70000 + (has_issue(p) ? p.issue : 3))); return (uint32_t)(z >> 16); }
static int towcount(const Page &p) { return p.tow >= 0 ? p.tow : p.kind == GPS ? 1000 + p.issue * 5 + p.type : p.issue * 30 + 6 * (p.type - 1); }
// what the broadcast decoder is to be given
static Bytes content(const Page &p) {
  Bytes r; auto put30 = [&](uint32_t w) { w &= 0x3FFFFFFF; for (int k = 24; k >= 0; k -= 8) r.push_back((uint8_t)(w >> k)); };
  if (p.kind == GPS) for (int i = 3; i <= 10; i++) {                        // words 3 to 10 of the subframe
    uint32_t w = pat(p, i); if (i == 4) w = (w & ~0xFFFFu) | (p.undecodable ? 0xDEAD : 0x1111);
    if ((p.type == 1 && i == 8) || (p.type == 2 && i == 3) || (p.type == 3 && i == 10)) w = (w & 0x3FFFFF) | (uint32_t)p.issue << 22;
    put30(w);
  } else if (p.kind == BDS) for (int i = 1; i <= 10; i++) {                 // all ten words: preamble, subframe number, seconds of week
    uint32_t w = pat(p, i), sow = (uint32_t)towcount(p);
    if (i == 1) w = 0x712u << 19 | (w & 0xF << 15) | (uint32_t)p.type << 12 | (sow >> 12 & 0xFF) << 4 | (w & 0xF);
    if (i == 2) w = (sow & 0xFFF) << 18 | (w & 0x3FFFF);
    put30(w);
  } else if (p.kind == GAL) {                                               // 128 bits: type (6), data
    for (int i = 0; i < 4; i++) { uint32_t w = pat(p, i); for (int k = 24; k >= 0; k -= 8) r.push_back((uint8_t)(w >> k)); }
    auto set = [&](int at, int n, uint32_t v) { for (int i = 0; i < n; i++) { int b = at + i; uint8_t m = (uint8_t)(0x80 >> b % 8); r[(size_t)b / 8] = (uint8_t)((r[(size_t)b / 8] & ~m) | ((v >> (n - 1 - i) & 1) ? m : 0)); } };
    set(0, 6, (uint32_t)p.type); if (has_issue(p)) set(6, 10, (uint32_t)p.issue); if (p.type == 4) set(16, 6, (uint32_t)p.prn);
    r[5] = p.undecodable ? 0xDE : 0x11;
  } else {                                                                  // bits 85 (first sent) to 1: idle, string number (4), data
    for (int i = 0; i < 3; i++) { uint32_t w = pat(p, i); for (int k = 24; k >= 0; k -= 8) r.push_back((uint8_t)(w >> k)); }
    r.resize(11); r[10] &= 0xF8; r[0] = (uint8_t)((p.type << 3) | (r[0] & 7));
  }
  if (p.flip >= 0) r[(size_t)p.flip / 8] ^= (uint8_t)(0x80 >> p.flip % 8);
  return r;
}
static uint32_t be(const Bytes &b, size_t i) { return (uint32_t)b[i] << 24 | (uint32_t)b[i + 1] << 16 | (uint32_t)b[i + 2] << 8 | b[i + 3]; }
static std::vector<uint32_t> words(const Page &p) {
  Bytes c = content(p); std::vector<uint32_t> w;
  if (p.kind == GPS) { w.push_back(0x8Bu << 22 | (pat(p, 1) & 0x3FFFFF)); w.push_back((uint32_t)towcount(p) << 13 | (pat(p, 2) & 0x18FF) | (uint32_t)p.type << 8); for (size_t i = 0; i < 8; i++) w.push_back(be(c, 4 * i)); }
  else if (p.kind == BDS) for (size_t i = 0; i < 10; i++) w.push_back(be(c, 4 * i));
  else if (p.kind == GAL) {              // even part: 0, page type, 112 bits, tail; odd part: 1, page type, 16 bits, ...
    BitW e; e.u(2, 0); for (size_t i = 0; i < 14; i++) e.u(8, c[i]); e.u(14, pat(p, 9) & 0x3FFF); const Bytes &eb = e.b; for (size_t i = 0; i < 4; i++) w.push_back(be(eb, 4 * i));
    w.push_back(1u << 31 | 0u << 30 | (uint32_t)c[14] << 22 | (uint32_t)c[15] << 14 | (pat(p, 10) & 0x3FFF)); for (int i = 5; i < 9; i++) w.push_back(pat(p, 10 + i));
  } else { c.resize(12); c[10] |= (uint8_t)(pat(p, 9) & 7); c[11] = (uint8_t)(pat(p, 9) >> 8); for (size_t i = 0; i < 3; i++) w.push_back(be(c, 4 * i)); w.push_back((uint32_t)p.issue << 16 | (pat(p, 10) & 0xF)); }
  return w;
}
static const Shape &shape(int n) { static std::vector<std::unique_ptr<Shape>> s(256); if (!s[(size_t)n]) s[(size_t)n].reset(new Shape(rxm_sfrbx(n))); return *s[(size_t)n]; }
static Bytes sfrbx(int gnss, int sat, int freq, const std::vector<uint32_t> &w) { const Shape &s = shape((int)w.size()); Raw r = {(uint64_t)gnss, (uint64_t)sat, 0, (uint64_t)freq, w.size(), 0, 2, 0}; for (auto x : w) r.push_back(x); return s.bytes(r); }
static Bytes message(const Page &p, int freq = 5) { return sfrbx(GNSS[p.kind], p.prn, freq, words(p)); }
static Bytes rawx(int leap, bool known, int wn = 2100) { static Shape s = rxm_rawx(0); double t = 1000; uint64_t b; memcpy(&b, &t, 8); return s.bytes({b, (uint64_t)wn, (uint64_t)leap, 0, known ? 1u : 0u, 1, 0, 0}); }
// ------------------------------------------------------------------ the broadcast decoder's side
struct Call { int kind; std::vector<Bytes> pages; double tot; int leap, leap2; bool ok; ephemeris_t e; };
static std::vector<Call> calls;
static std::function<void(ephemeris_t &)> fill;
static void fill_default(ephemeris_t &e) { e.ura = 2; e.fit_interval = 14400; e.toe.wn = 2100; e.toe.tow = 100; }
static bool on_eph(int kind, const void *v, double tot, const utc_params_t *u, ephemeris_t *e) {
  Call k; k.kind = kind; k.tot = tot; k.leap = u ? u->dt_ls : 0; k.leap2 = u ? u->dt_lsf : 0; k.ok = true;
  if (u && (u->a0 != 0 || u->a1 != 0)) k.leap = -99;
  for (int t = 0; t < NT[kind]; t++) {
    Bytes b; const uint32_t *w = (const uint32_t *)v;
    if (kind == GPS) { for (int i = 0; i < 8; i++) { uint32_t x = w[t * 8 + i] & 0x3FFFFFFF; for (int s = 24; s >= 0; s -= 8) b.push_back((uint8_t)(x >> s)); } if ((w[t * 8 + 1] & 0xFFFF) == 0xDEAD) k.ok = false; }
    else if (kind == BDS) for (int i = 0; i < 10; i++) { uint32_t x = w[t * 10 + i] & 0x3FFFFFFF; for (int s = 24; s >= 0; s -= 8) b.push_back((uint8_t)(x >> s)); }
    else if (kind == GAL) { const uint8_t *p = (const uint8_t *)v + 16 * t; b.assign(p, p + 16); if (b[5] == 0xDE) k.ok = false; }
    else { b.assign(11, 0); for (int n = 85; n >= 1; n--) { int at = 85 - n; if (w[t * 3 + (n - 1) / 32] >> (n - 1) % 32 & 1) b[(size_t)at / 8] |= (uint8_t)(0x80 >> at % 8); } }
    k.pages.push_back(b);
  }
  if (kind == GAL) { e->sid.sat = (uint16_t)(k.pages[3][2] >> 2); e->source = 0; }       // the satellite is named in word type 4
  fill_default(*e); if (fill) fill(*e);
  k.e = *e; calls.push_back(k); return k.ok;
}
// ------------------------------------------------------------------ reference: the latest page of every type, per satellite
struct Slot { int issue = -1, var = 0; bool bad = false, old = false; };      // old: a page of another issue, or a damaged one of this type, came after it
struct Sat { Slot s[5]; };
struct Ref {
  std::map<int, Sat> sat; bool leap_known = false; int leap = 0;
  uint64_t hash() const { uint64_t h = leap_known ? 77u + (unsigned)leap : 5; for (auto &x : sat) { bool any = false; for (auto &s : x.second.s) any = any || s.issue >= 0; if (!any) continue; h = mc::mix(h, (uint64_t)x.first); for (auto &s : x.second.s) h = mixn(h, (uint64_t)s.issue + 1, (uint64_t)s.var, (uint64_t)s.bad * 2 + s.old); } return h; }
  // a page arrives; what is allowed
  struct Verdict { bool may = false, must = false, fails = false; std::vector<Page> set; };
  static bool same(int kind, int t, int a, int b) { return a == b || (kind == GAL && t == 4); }
  Verdict page(const Page &p) {
    Verdict v; int n = NT[p.kind]; if (p.prn < 1 || p.prn > NSAT[p.kind] || (p.kind == BDS && (p.prn <= 5 || p.prn >= 59))) return v;
    Sat &s = sat[p.kind * 1000 + p.prn];
    if (has_issue(p)) for (int t = 0; t < n; t++) if (!same(p.kind, t, s.s[t].issue, p.issue)) { s.s[t].old = true; if (p.kind == GLO) s.s[t].issue = -1; }
    s.s[p.type - 1] = Slot(); s.s[p.type - 1].issue = has_issue(p) ? p.issue : 3; s.s[p.type - 1].var = p.var; s.s[p.type - 1].bad = p.undecodable;
    int issue = -1; v.may = v.must = true; bool bad = false;
    for (int t = 0; t < n; t++) {
      Slot &x = s.s[t]; if (x.issue < 0) { v.may = v.must = false; return v; }
      if (x.old) v.must = false; bad = bad || x.bad;
      if (!(p.kind == GAL && t == 4)) { if (issue >= 0 && issue != x.issue) { v.may = v.must = false; return v; } issue = x.issue; }
      Page q = p; q.type = t + 1; q.issue = x.issue; q.var = x.var; q.undecodable = x.bad; q.flip = -1; v.set.push_back(q);
    }
    if (p.kind == GLO && !leap_known) { v.may = v.must = false; return v; }
    if (bad) { v.may = v.must = false; v.fails = true; for (int t = 0; t < n; t++) s.s[t].old = true; }
    return v;
  }
  void damaged(const Page &p) { auto it = sat.find(p.kind * 1000 + p.prn); if (it == sat.end()) return; for (int t = 0; t < NT[p.kind]; t++) if (t == p.type - 1 || !same(p.kind, t, it->second.s[t].issue, p.issue)) it->second.s[t].old = true; }
  void sent(const Page &p) { sat.erase(p.kind * 1000 + p.prn); }
};
static std::string text(const Page &p) { return fmt("%s %d type %d issue %d%s%s", KN[p.kind], p.prn, p.type, p.issue, p.var ? " (other contents)" : "", p.undecodable ? " undecodable" : ""); }
// ------------------------------------------------------------------ one message and its consequences
struct Op { std::string name; Bytes bytes; int what; Page page; int leap; };       // what: 0 a page, 1 nothing happens, 2 a damaged page, 3 leap seconds
static Op op_page(const Page &p) { return {text(p), message(p), 0, p, 0}; }
static Op op_none(const std::string &n, const Bytes &b) { return {n, b, 1, {}, 0}; }
static Op op_damaged(const Page &p) { return {"damaged " + text(p), message(p), 2, p, 0}; }
static Op op_leap(int leap, bool known) { return {known ? fmt("leap seconds %d", leap) : "leap seconds unknown", rawx(leap, known), 3, {}, known ? leap : -1}; }
static const int TYPE[4] = {SbpMsgEphemerisGps, SbpMsgEphemerisBds, SbpMsgEphemerisGal, SbpMsgEphemerisGlo};
static std::string sent_as(const Emit &e, sbp_ephemeris_common_content_t &c) { auto &m = e.m; c = e.type == SbpMsgEphemerisGps ? m.ephemeris_gps.common : e.type == SbpMsgEphemerisBds ? m.ephemeris_bds.common : e.type == SbpMsgEphemerisGal ? m.ephemeris_gal.common : m.ephemeris_glo.common; return ""; }
static void feed(Ctx &c, U &u, Ref &r, const Op &o, const char *how, int times = 1) {
  for (int k = 0; k < times; k++) {
    u.out.clear(); calls.clear(); u.body(o.bytes);
    std::vector<Emit> eph; for (auto &e : u.out) { if (e.type == SbpMsgObs && o.what == 3) continue; eph.push_back(e); }
    Ref::Verdict v; if (o.what == 0) v = r.page(o.page); else if (o.what == 2) r.damaged(o.page); else if (o.what == 3) { r.leap_known = o.leap >= 0; r.leap = o.leap; }
    #define T_ (std::string(how) + ": " + o.name)
    CHK(c, eph.size() <= (v.may ? 1u : 0u), "%s: sent %.150s", T_.c_str(), ubxpipe::show(eph.empty() ? Emit() : eph[0]).c_str());
    CHK(c, eph.size() >= (v.must ? 1u : 0u), "%s: the set is complete, no ephemeris was sent", T_.c_str());
    if (!eph.empty() && v.may) {
      CHK(c, eph[0].type == TYPE[o.page.kind], "%s: sent %.150s", T_.c_str(), ubxpipe::show(eph[0]).c_str());
      sbp_ephemeris_common_content_t cc; sent_as(eph[0], cc); static const int CODE[4] = {0, 12, 14, 3};
      CHK(c, cc.sid.sat == o.page.prn && cc.sid.code == CODE[o.page.kind], "%s: sent for satellite %d/%d", T_.c_str(), cc.sid.sat, cc.sid.code);
      CHK(c, cc.valid == 1, "%s: sent as invalid", T_.c_str());
      CHK(c, calls.size() == 1 && calls[0].kind == o.page.kind, "%s: decoded %zu sets", T_.c_str(), calls.size());
      for (size_t i = 0; i < v.set.size() && !calls.empty(); i++) { Bytes w = content(v.set[i]); CHK(c, calls[0].pages[i] == w, "%s: page %zu was decoded as %s, received %s (%s)", T_.c_str(), i + 1, hex(calls[0].pages[i]).c_str(), hex(w).c_str(), text(v.set[i]).c_str()); }
      if (o.page.kind == GPS && !calls.empty()) { int n = towcount(v.set[0]); CHK(c, calls[0].tot == (n ? (n - 1) * 6 : 604794), "%s: time of transmission of subframe 1 taken as %.1f, its count is %d", T_.c_str(), calls[0].tot, n); }
      if (o.page.kind == GLO && !calls.empty()) { CHK(c, calls[0].leap == r.leap && calls[0].leap2 == r.leap, "%s: decoded with leap seconds %d/%d, known %d", T_.c_str(), calls[0].leap, calls[0].leap2, r.leap);
        CHK(c, eph[0].m.ephemeris_glo.fcn == o.bytes[7] + 1, "%s: frequency %d sent for slot %d", T_.c_str(), eph[0].m.ephemeris_glo.fcn, o.bytes[7]); }
      r.sent(o.page); c.traced(1);
    }
    c.step();
  }
}
// pages that are none: wrong sizes, alerts, other signals, other subframes
static std::vector<Op> foreign(int kind, int prn, int issue) {
  std::vector<Op> v; Page p{kind, prn, NT[kind], issue, 4}; auto w = words(p);
  auto add = [&](const char *n, std::vector<uint32_t> x) { v.push_back(op_none(fmt("%s %d %s", KN[kind], prn, n), sfrbx(GNSS[kind], prn, 5, x))); };
  auto sz = [&](size_t n) { auto x = w; x.resize(n, 0x11111111); return x; };
  if (kind != GAL) { add("one word more", kind == GLO ? sz(5) : sz(10 - 1)); add("one word less", sz((size_t)NW[kind] - 1)); } else add("short page", sz(7));
  add("no words", {});
  if (kind == GPS) { auto x = w; x[0] ^= 1u << 22; add("other preamble", x); x = w; x[0] = 0x8Bu << 24; add("L2C message", x); for (int s : {0, 4, 5, 6, 7}) { x = w; x[1] = (x[1] & ~0x700u) | (uint32_t)s << 8; add(fmt("subframe %d", s).c_str(), x); } }
  if (kind == BDS) for (int s : {0, 4, 5, 7}) { auto x = w; x[0] = (x[0] & ~0x7000u) | (uint32_t)s << 12; add(fmt("subframe %d", s).c_str(), x); }
  if (kind == GAL) { auto x = w; x[0] |= 1u << 30; add("alert page", x); x = w; x[0] |= 1u << 31; add("odd page first", x); x = w; x[4] &= ~(1u << 31); add("even page last", x); for (int s : {0, 6, 10, 63}) { x = w; x[0] = (x[0] & ~0x3F000000u) | (uint32_t)s << 24; add(fmt("word type %d", s).c_str(), x); } }
  if (kind == GLO) { auto x = w; x[0] |= 1u << 31; add("idle string", x); for (int s : {0, 6, 8, 15}) { x = w; x[0] = (x[0] & ~(0xFu << 27)) | (uint32_t)s << 27; add(fmt("string %d", s).c_str(), x); } }
  for (int g : {0, 1, 2, 3, 4, 5, 6, 7}) if (g != GNSS[kind] && g != 1) { bool other = false; for (int k = 0; k < 4; k++) if (GNSS[k] == g && NW[k] == NW[kind]) other = true; if (!other) v.push_back(op_none(fmt("%s page under constellation %d", KN[kind], g), sfrbx(g, prn, 5, w))); }
  return v;
}
// ------------------------------------------------------------------ all reachable states
static std::vector<Op> alphabet(int kind, int prn, const std::vector<int> &issues, int extra) {
  std::vector<Op> v; int n = NT[kind];
  for (int t = 1; t <= n; t++) for (size_t k = 0; k < issues.size(); k++) { Page p{kind, prn, t, issues[k]}; if (!has_issue(p)) { if (k) break; } v.push_back(op_page(p)); }
  if (extra & 1) { Page p{kind, prn, 2, issues[0], 1}; v.push_back(op_page(p)); if (kind == GAL) { Page q{kind, prn, 5, 3, 1}; v.push_back(op_page(q)); } }           // repeated with other contents
  if (extra & 2) { if (kind == GPS || kind == GAL) { Page p{kind, prn, 3, issues[0], 2}; p.undecodable = true; v.push_back(op_page(p)); }
    if (kind == GPS) { Page p{kind, prn, 1, issues[0], 3}; p.tow = 100800; v.push_back(op_damaged(p)); }
    if (kind == BDS) { Page p{kind, prn, 2, issues[0], 3}; p.tow = 604800; v.push_back(op_damaged(p)); } }
  if (extra & 4) for (auto &o : foreign(kind, prn, issues[0])) v.push_back(o);
  if (kind == GLO) { v.push_back(op_leap(18, true)); if (extra & 8) { v.push_back(op_leap(17, true)); v.push_back(op_leap(0, false)); } }
  return v;
}
typedef std::vector<std::pair<uint32_t, uint8_t>> Diff;
struct Node { Diff d; Ref r; int parent, op; };
static void explore(Ctx &c, const std::vector<Op> &ops, const std::vector<std::vector<Op>> &macros, size_t cap) {
  U u(0); size_t sz = sizeof(ubx_sbp_state); Bytes init(u.mem.get(), u.mem.get() + sz);
  std::vector<Node> q; std::unordered_map<uint64_t, char> seen; q.push_back({{}, {}, -1, -1}); seen[0] = 1; Diff last; int nops = (int)(ops.size() + macros.size());
  auto path = [&](int i, int o) { std::string s; for (int x = o; x >= 0; ) { s = (x < (int)ops.size() ? ops[(size_t)x].name : fmt("pages of the other satellite (%d)", x - (int)ops.size())) + (s.empty() ? "" : "; ") + s; if (i <= 0) break; x = q[(size_t)i].op; i = q[(size_t)i].parent; } return s; };
  for (size_t i = 0; i < q.size(); i++) for (int o = 0; o < nops; o++) {
    for (auto &x : last) u.mem[x.first] = init[x.first]; for (auto &x : q[i].d) u.mem[x.first] = x.second; Ref r = q[i].r; std::string how;
    try { if (o < (int)ops.size()) feed(c, u, r, ops[(size_t)o], "history"); else for (auto &m : macros[(size_t)o - ops.size()]) feed(c, u, r, m, "history"); }
    catch (Violation &x) { x.msg += " (after: " + path((int)i, o) + ")"; throw; }
    Diff d; uint64_t h = r.hash(); const uint8_t *a = u.mem.get(), *b = init.data();
    for (size_t K = 0; K < sz; K += 512) if (memcmp(a + K, b + K, sz - K < 512 ? sz - K : 512)) for (size_t k = K; k < K + 512 && k < sz; k += 8) if (sz - k < 8 || *(const uint64_t *)(const void *)(a + k) != *(const uint64_t *)(const void *)(b + k)) for (size_t j = k; j < k + 8 && j < sz; j++) if (a[j] != b[j]) { d.push_back({(uint32_t)j, a[j]}); h = mc::mix(h, j * 256 + a[j]); }
    last = d; c.state(h); if (seen.count(h)) continue; seen[h] = 1; if (q.size() < cap) q.push_back({d, r, (int)i, o}); else c.fail("bound", "more than %zu states", cap);
  }
}
static void reach(Ctx &c) {
  int kind = c.choose(4, "constellation"), var = c.choose(c.thorough ? 6 : 4, "alphabet"); static const std::vector<int> IA[4] = {{0x5A, 0xDA}, {5000, 5001}, {77, 589}, {12, 13}}, IB[4] = {{0, 255}, {20158, 20159}, {0, 1}, {0, 65535}}, I3[4] = {{1, 2, 3}, {0, 1, 2}, {1, 2, 3}, {1, 2, 3}};
  shim_on_eph = on_eph; fill = nullptr; int prn = kind == BDS ? 6 : var % 2 ? NSAT[kind] : 1; std::vector<std::vector<Op>> mac;
  std::vector<Op> ops;
  switch (var) {
    case 0: ops = alphabet(kind, prn, IA[kind], 4); break;                       // two issues and everything that is no page
    case 1: ops = alphabet(kind, prn, IB[kind], kind == GAL ? 2 : 3 | 8); break;  // repeated pages with other contents, damaged and undecodable pages
    case 2: case 3: {                                                            // a second satellite's set, in two parts, before and between
      ops = alphabet(kind, prn, IA[kind], 0); int n = NT[kind], p2 = var == 2 ? prn + 1 : kind == BDS ? 58 : prn == 1 ? NSAT[kind] : 1; if (var == 3 && kind != BDS && p2 == prn) p2 = 1;
      std::vector<Op> a, b; for (int t = 1; t <= n; t++) { Page p{kind, p2, t, IA[kind][0]}; (t < n ? a : b).push_back(op_page(p)); } mac = {a, b}; break; }
    case 4: ops = alphabet(kind, prn, I3[kind], 0); break;
    default: ops = alphabet(kind, prn, IA[kind], kind == GAL ? 1 : 15); break;
  }
  c.leaf(); explore(c, ops, mac, 4000000);
}
// ------------------------------------------------------------------ two satellites of any kinds, all interleavings of their sets
static void pairs(Ctx &c) {
  int a = c.choose(4, "first"), b = c.choose(4, "second"), ord = c.choose(c.thorough ? 4 : 2, "orders"); shim_on_eph = on_eph; fill = nullptr; U u; Ref r; feed(c, u, r, op_leap(18, true), "pairs");
  int pa = a == BDS ? 7 : 7, pb = a == b ? 8 : 7, i = 0, j = 0, na = NT[a], nb = NT[b]; static const int I[4] = {90, 700, 90, 90};
  auto kth = [](int k, int n, int o) { return o ? n - k : k + 1; };
  while (i < na || j < nb) { bool first = i < na && (j >= nb || c.choose(2, "next") == 0); Page p{first ? a : b, first ? pa : pb, first ? kth(i, na, ord & 1) : kth(j, nb, (ord >> 1) ^ (ord & 1)), I[first ? a : b]}; (first ? i : j)++; feed(c, u, r, op_page(p), "pairs"); }
}
// every satellite number: its set is found, and pages of its neighbours are not mixed in
static void satellites(Ctx &c) {
  int kind = c.choose(4, "constellation"), prn = c.choose(256, "satellite"), d = c.choose(16, "other"); shim_on_eph = on_eph; fill = nullptr; static const int D[] = {0, 1, -1, 2, 4, 8, 16, 32, 64, 128, -2, -8, -16, -32, -64, 3}; int p2 = prn + D[d]; if (p2 < 0 || p2 > 255 || (kind == BDS && (prn == 64 || p2 == 64))) return;
  U u; Ref r; feed(c, u, r, op_leap(18, true), "satellites"); int n = NT[kind]; static const int I[4] = {90, 700, 90, 90};
  auto pg = [&](int sat, int t) { feed(c, u, r, op_page(Page{kind, sat, t, I[kind]}), "satellites"); };
  if (!d) { for (int k = 0; k < 2; k++) for (int t = 1; t <= n; t++) pg(prn, t); return; }
  for (int t = 1; t < n; t++) pg(prn, t); pg(p2, n); for (int t = 1; t < n; t++) pg(p2, t); pg(prn, n);
}
// a single bit of one page's issue number differs
static void issues(Ctx &c) {
  static const int BITS[4] = {8, 15, 10, 16}; int kind = c.choose(4, "constellation"), k = c.choose(34, "issue"), bit = c.choose(17, "bit"), t0 = c.choose(5, "page"); if (bit > BITS[kind] || t0 >= NT[kind]) return;
  int I = k < 16 ? 1 << k : k < 32 ? ~(1 << (k - 16)) : k == 32 ? 0 : 0xFFFF; I &= (1 << BITS[kind]) - 1; if (kind == BDS) I %= 20160;
  int J = bit == BITS[kind] ? I : I ^ 1 << bit; if (kind == BDS && J >= 20160) return;
  shim_on_eph = on_eph; fill = nullptr; U u; Ref r; feed(c, u, r, op_leap(18, true), "issues"); int ord = c.choose(2, "order");
  for (int q = 0; q < NT[kind]; q++) { int t = ord ? NT[kind] - q : q + 1; feed(c, u, r, op_page(Page{kind, 9, t, t == t0 + 1 ? J : I}), "issues"); }
  feed(c, u, r, op_page(Page{kind, 9, t0 + 1, I}), "issues");
  for (int t = 1; t <= NT[kind]; t++) feed(c, u, r, op_page(Page{kind, 9, t, J}), "issues");
}
// BeiDou: subframes whose seconds are not those of one frame
static void seconds(Ctx &c) {
  static const int OFF[] = {-30, -12, -7, -6, -5, -1, 0, 1, 5, 6, 7, 12, 30, 64, 4096, -4096, 65536, -65536}; int f = c.choose(8, "frame"), t0 = c.choose(3, "subframe"), k = c.choose(18, "offset"); static const int F[] = {0, 1, 136, 137, 5000, 10000, 20158, 20159};
  shim_on_eph = on_eph; fill = nullptr; U u; int base = F[f] * 30; long out = 0; int tow = base + 6 * t0 + OFF[k]; if (tow < 0 || tow >= 604800) return;
  for (int t = 1; t <= 3; t++) { Page p{BDS, 11, t, F[f]}; if (t == t0 + 1) p.tow = tow; calls.clear(); u.out.clear(); u.body(message(p)); out += (long)u.out.size(); c.step(); }
  CHK(c, out == (OFF[k] == 0 ? 1 : 0), "seconds of subframe %d off by %d: %ld ephemerides", t0 + 1, OFF[k], out);
}
// BeiDou: every frame of the week, and seconds beyond it
static void frames(Ctx &c) {
  int b = c.choose(280, "block"); shim_on_eph = on_eph; fill = nullptr; U u;
  for (int i = 0; i < 128; i++) {
    int f = b * 128 + i; for (int t = 1; t <= 3; t++) { Page p{BDS, 11, t, f % 20160}; p.tow = f * 30 + 6 * (t - 1); if (p.tow >= 1 << 20) return; calls.clear(); u.out.clear(); u.body(message(p)); c.step(); size_t w = t == 3 && f < 20160 ? 1 : 0; CHK(c, u.out.size() == w, "subframe %d at second %d of the week: %zu ephemerides", t, p.tow, u.out.size()); }
    if (b == 0 && i < 3) for (int t = 1; t <= 2; t++) { U v; for (int k = 1; k <= 3; k++) { Page p{BDS, 11, k, 5}; p.tow = 604800 + 6 * (k - 1 - t) + (i == 1) + (i == 2) * 5; v.body(message(p)); } CHK(c, v.out.empty(), "subframes around the end of the week: %zu ephemerides", v.out.size()); }
  }
}
// GPS: every time of week count of the first subframe
static void counts(Ctx &c) {
  int b = c.choose(2048, "block"); shim_on_eph = on_eph; fill = nullptr; U u; Ref r;
  for (int i = 0; i < 64; i++) { int tow = b * 64 + i; if (!c.thorough && tow % 1024 > 2 && tow % 1024 < 1020 && (tow < 100700 || tow > 100900) && tow % 37) continue; Page p{GPS, 3, 1, 44}; p.tow = tow; u.out.clear(); calls.clear();
    u.body(message(Page{GPS, 3, 2, 44})); u.body(message(Page{GPS, 3, 3, 44})); CHK(c, u.out.empty(), "count %d: ephemeris without its first subframe", tow - 1);
    u.body(message(p)); c.step(); bool ok = tow < 100800; CHK(c, u.out.size() == (ok ? 1u : 0u), "time of week count %d: %zu ephemerides", tow, u.out.size());
    if (ok) CHK(c, calls.size() == 1 && calls[0].tot == (tow ? (tow - 1) * 6 : 604794), "time of week count %d: transmission at %.1f", tow, calls.empty() ? -1 : calls[0].tot); }
}
// every bit of every page reaches the decoder
static void contents(Ctx &c) {
  static const int NB[4] = {256, 320, 128, 85}; int kind = c.choose(4, "constellation"), t0 = c.choose(5, "page"), bit = c.choose(320, "bit"); if (t0 >= NT[kind] || bit >= NB[kind]) return;
  Page f{kind, 9, t0 + 1, 90}; f.flip = bit;
  if (kind == GPS) { if (bit % 32 < 2) return; int w = 3 + bit / 32, b = bit % 32 - 2; if (w == 4 && b >= 14) return; if (b < 8 && ((t0 == 0 && w == 8) || (t0 == 1 && w == 3) || (t0 == 2 && w == 10))) return; }
  if (kind == BDS) { if (bit % 32 < 2) return; int w = bit / 32, b = bit % 32 - 2; if ((w == 0 && b >= 15 && b < 26) || (w == 1 && b < 12)) return; }
  if (kind == GAL && (bit < 6 || (t0 < 4 && bit < 16) || (t0 == 3 && bit < 22) || (bit >= 40 && bit < 48))) return;
  if (kind == GLO && bit < 5) return;
  shim_on_eph = on_eph; fill = nullptr; U u; u.body(rawx(18, true)); u.out.clear(); calls.clear();
  for (int t = 1; t <= NT[kind]; t++) { Page p{kind, 9, t, 90}; u.body(t == t0 + 1 ? message(f) : message(p)); c.step(); }
  CHK(c, u.out.size() == 1 && calls.size() == 1, "%s page %d bit %d changed: %zu ephemerides", KN[kind], t0 + 1, bit, u.out.size());
  for (int t = 1; t <= NT[kind] && !calls.empty(); t++) { Page p{kind, 9, t, 90}; Bytes w = content(t == t0 + 1 ? f : p); CHK(c, calls[0].pages[(size_t)t - 1] == w, "%s page %d bit %d changed: page %d decoded as %s, received %s", KN[kind], t0 + 1, bit, t, hex(calls[0].pages[(size_t)t - 1]).c_str(), hex(w).c_str()); }
}
// ------------------------------------------------------------------ what the decoder found is what is sent
static void fields(Ctx &c) {
  int kind = c.choose(4, "constellation"); shim_on_eph = on_eph; U u; ubx_set_sender_id(u.st(), 0x3322); u.body(rawx(18, true)); u.out.clear(); calls.clear();
  static const double V[] = {1, 0, -1.5, 1e-12, 3.14159265358979, -2.5e7}; static const int TOW[] = {100, 0, 1, 302400, 604784, 604785, 604786, 604790, 604799}, WN[] = {2100, 0, 1, 1024, 4095}, I8[] = {17, 0, 255, 128}, I16[] = {17, 0, 255, 1023};
  static const float UR[] = {2, 0, 2.4f, 8192, -1}; static const int FI[] = {14400, 0, 7200, 86400}, FQ[] = {5, 0, 1, 7, 12, 13};
  double x[24]; int nx = kind == GLO ? 12 : 21; for (int i = 0; i < nx; i++) { int k = c.dev(7, "value"); x[i] = k == 0 ? 0.001 * (i + 3) + i : V[k - 1]; }
  int toe = TOW[c.dev(9, "toe")], wn = WN[c.dev(5, "toe week")], toc = TOW[c.dev(9, "toc")], wc = WN[c.dev(5, "toc week")], health = I8[c.dev(4, "health")], iode = (kind == GAL ? I16 : I8)[c.dev(4, "iode")], iodc = I16[c.dev(4, "iodc")], fit = FI[c.dev(4, "fit")], fq = FQ[c.dev(6, "frequency")]; float ura = UR[c.dev(5, "ura")];
  fill = [&](ephemeris_t &e) {
    e.toe.tow = toe; e.toe.wn = (s16)wn; e.ura = ura; e.fit_interval = (u32)fit; e.health_bits = (u8)health;
    if (kind == GLO) { auto &g = e.data.glo; for (int i = 0; i < 3; i++) { g.pos[i] = x[i]; g.vel[i] = x[3 + i]; g.acc[i] = x[6 + i]; } g.gamma = x[9]; g.tau = x[10]; g.d_tau = x[11]; g.iod = (u8)iode; g.fcn = 99; return; }
    auto &k = e.data.kepler; k.crc = x[0]; k.crs = x[1]; k.cuc = x[2]; k.cus = x[3]; k.cic = x[4]; k.cis = x[5]; k.dn = x[6]; k.m0 = x[7]; k.ecc = x[8]; k.sqrta = x[9]; k.omega0 = x[10]; k.omegadot = x[11]; k.w = x[12]; k.inc = x[13]; k.inc_dot = x[14]; k.af0 = x[15]; k.af1 = (float)x[16]; k.af2 = (float)x[17];
    k.tgd.gps_s[0] = (float)x[18]; k.tgd.gps_s[1] = (float)x[19]; k.toc.tow = toc; k.toc.wn = (s16)wc; k.iode = (u16)iode; k.iodc = (u16)iodc; };
  for (int t = 1; t <= NT[kind]; t++) u.body(message(Page{kind, 19, t, 90}, fq));
  fill = nullptr; c.step(); CHK(c, u.out.size() == 1, "%s: %zu ephemerides", KN[kind], u.out.size()); auto &e = u.out[0]; auto &m = e.m;
  CHK(c, e.sender == 0x3322 && e.type == TYPE[kind], "%s: sent %.200s", KN[kind], ubxpipe::show(e).c_str());
  int add = kind == BDS ? 14 : 0; if (add) { toe += 14; toc += 14; if (toe >= 604800) { toe -= 604800; wn++; } if (toc >= 604800) { toc -= 604800; wc++; } fit = 10800; }
  sbp_ephemeris_common_content_t cc; sent_as(e, cc); std::string t = ubxpipe::show(e);
#define EQ(a, b) CHK(c, (double)(a) == (double)(b), "%s: " #a " sent as %.17g, decoded %.17g: %.300s", KN[kind], (double)(a), (double)(b), t.c_str());
  EQ(cc.toe.tow, toe) EQ(cc.toe.wn, wn) EQ(cc.ura, ura) EQ(cc.fit_interval, fit) EQ(cc.health_bits, health) EQ(cc.valid, 1) EQ(cc.sid.sat, 19)
#define KE(g) EQ(g.c_rc, (float)x[0]) EQ(g.c_rs, (float)x[1]) EQ(g.c_uc, (float)x[2]) EQ(g.c_us, (float)x[3]) EQ(g.c_ic, (float)x[4]) EQ(g.c_is, (float)x[5]) EQ(g.dn, x[6]) EQ(g.m0, x[7]) EQ(g.ecc, x[8]) EQ(g.sqrta, x[9]) EQ(g.omega0, x[10]) EQ(g.omegadot, x[11]) EQ(g.w, x[12]) EQ(g.inc, x[13]) EQ(g.inc_dot, x[14]) EQ(g.af1, (float)x[16]) EQ(g.af2, (float)x[17]) EQ(g.toc.tow, toc) EQ(g.toc.wn, wc) EQ(g.iode, iode) EQ(g.iodc, iodc)
  if (kind == GPS) { KE(m.ephemeris_gps) EQ(m.ephemeris_gps.af0, (float)x[15]) EQ(m.ephemeris_gps.tgd, (float)x[18]) }
  else if (kind == BDS) { KE(m.ephemeris_bds) EQ(m.ephemeris_bds.af0, x[15]) EQ(m.ephemeris_bds.tgd1, (float)x[18]) EQ(m.ephemeris_bds.tgd2, (float)x[19]) }
  else if (kind == GAL) { KE(m.ephemeris_gal) EQ(m.ephemeris_gal.af0, x[15]) EQ(m.ephemeris_gal.bgd_e1e5a, (float)x[18]) EQ(m.ephemeris_gal.bgd_e1e5b, (float)x[19]) EQ(m.ephemeris_gal.source, 0) }
  else { auto &g = m.ephemeris_glo; for (int i = 0; i < 3; i++) { EQ(g.pos[i], x[i]) EQ(g.vel[i], x[3 + i]) EQ(g.acc[i], (float)x[6 + i]) } EQ(g.gamma, (float)x[9]) EQ(g.tau, (float)x[10]) EQ(g.d_tau, (float)x[11]) EQ(g.iod, iode) EQ(g.fcn, fq + 1) }
  c.state(hash_str(t)); c.traced(1);
}
// ------------------------------------------------------------------ histories over all constellations, with what is between
static void mixed(Ctx &c) {
  shim_on_eph = on_eph; fill = nullptr; U u; Ref r; static std::vector<Op> ops; static const int NP = 16;
  if (ops.empty()) for (int k = 0; k < 4; k++) { Page p{k, 10, NT[k], 3}, q{k, 10, 1, 3}; ops.push_back(op_page(p)); ops.push_back(op_page(q)); q.issue = 4; ops.push_back(op_page(q)); Page s{k, 11, 1, 3}; ops.push_back(op_page(s)); }
  // every satellite has all its middle pages; the first and last arrive in any order
  feed(c, u, r, op_leap(18, true), "mixed"); for (int k = 0; k < 4; k++) for (int t = 2; t < NT[k]; t++) feed(c, u, r, op_page(Page{k, 10, t, 3}), "mixed");
  int n = c.choose(c.thorough ? 6 : 4, "length") + 1; for (int i = 0; i < n; i++) feed(c, u, r, ops[(size_t)c.choose(NP, "page")], "mixed");
}
int main(int argc, char **argv) {
  Spec s; s.property = "C25";
  s.rule = "Pages are built from the signal descriptions; whenever the real converter is given one, what it sends and what it hands to the broadcast decoder are compared with the reference page store. The scenario reach explores the converter's own memory together with the reference to closure.";
  s.assumptions = {"the broadcast decoders of libswiftnav are stand-ins that record the pages they are given and return the fields the check chose", "a page that repeats an issue after pages of another issue have been received may or may not complete a set", "Galileo word type 5 carries no issue number and belongs to any set", "the receiver only delivers pages with right parity"};
  s.scenarios = {{"reach", reach, 0, 0, false}, {"pairs", pairs, 0, 0, false}, {"satellites", satellites, 0, 0, false}, {"issues", issues, 0, 0, false}, {"seconds", seconds, 0, 0, false}, {"frames", frames, 0, 0, false}, {"counts", counts, 0, 0, false}, {"contents", contents, 0, 0, false}, {"fields", fields, 2, 3, false}, {"mixed", mixed, 0, 0, false}};
  return run(argc, argv, s);
}
