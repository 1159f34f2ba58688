// C14: RTCM observation messages to SBP: each epoch once, complete, numbered, with the right values
#include "obsref.hpp"
using namespace mc; using namespace obsref; using namespace msmref;
static const uint32_t T0 = 345600000;   // GPS time of week of the first epoch; the input time is the same
static uint32_t epoch_of(int cons, int64_t tow) {
  if (cons == GLO) { int64_t tod = (tow % DAY + 3 * 3600000ll - 18000 + DAY) % DAY; return (uint32_t)((4u << 27) | (uint32_t)tod); }
  if (cons == BDS) tow -= 14000;
  return (uint32_t)((tow + WEEK) % WEEK);
}
static uint32_t leg_time(bool glo, int64_t tow) { return glo ? epoch_of(GLO, tow) & 0x7FFFFFF : (uint32_t)tow; }
static Msg msg(int cons, int kind, uint64_t sats, uint32_t sigs, int64_t tow, bool more, int stn, uint32_t seed) {
  Msg m; m.cons = cons; m.kind = kind; m.sat_mask = sats; m.sig_mask = sigs; m.all_cells(); m.fill(seed); m.epoch = epoch_of(cons, tow); m.mult = more; m.stn = (uint32_t)stn; return m;
}
static const uint32_t SIG2[6] = {1u << 30 | 1u << 17, 1u << 30, 1u << 30 | 1u << 24, 1u << 30 | 1u << 18, 1u << 30, 1u << 30 | 1u << 18};
static uint64_t bit(int id) { return 1ull << (64 - id); }
static Leg leg(int num, int64_t tow, bool sync, int stn, std::vector<int> ids) {
  Leg l; l.num = num; l.stn = (uint32_t)stn; l.t = leg_time(l.glo(), tow); l.sync = sync;
  for (int id : ids) { LegSat s; s.id = id; s.pr += 7777 * id; s.ph -= 999 * id; s.fcn = id % 14; if (l.glo()) s.amb = 35 + id % 20; l.s.push_back(s); }
  return l;
}
// ---- sequences of messages
struct It { bool msm; int a /*constellation or number*/, kind, off /*ms*/; bool more; int stn; };
static const std::vector<It> &menu(bool wide) {
  static std::vector<It> n, w;
  if (n.empty()) {
    for (int off : {0, 1000}) for (int more : {1, 0}) {
      n.push_back({true, GPS, 7, off, (bool)more, 5}); n.push_back({true, GLO, 5, off, (bool)more, 5}); n.push_back({true, GAL, 4, off, (bool)more, 5}); n.push_back({true, BDS, 6, off, (bool)more, 5});
      n.push_back({false, 1004, 0, off, (bool)more, 5}); n.push_back({false, 1012, 0, off, (bool)more, 5});
    }
    n.push_back({true, GPS, 4, 0, true, 6}); n.push_back({true, GPS, 4, 0, false, 6}); n.push_back({false, 1004, 0, 0, true, 6}); n.push_back({true, QZS, 7, 0, true, 5}); n.push_back({true, QZS, 7, 0, false, 5});
    n.push_back({true, GPS, 3, 0, true, 5}); n.push_back({true, GPS, 3, 0, false, 5}); n.push_back({true, SBAS, 4, 0, true, 5}); n.push_back({false, 1002, 0, 1000, true, 5}); n.push_back({false, 1010, 0, 1000, true, 5});
    w = n; for (int more : {1, 0}) { w.push_back({true, GPS, 7, -1000, (bool)more, 5}); w.push_back({true, GPS, 5, 6000, (bool)more, 5}); w.push_back({false, 1004, 0, 6000, (bool)more, 5}); w.push_back({false, 1012, 0, -1000, (bool)more, 5}); w.push_back({true, GAL, 7, 200, (bool)more, 5}); }
  }
  return wide ? w : n;
}
static std::string name(const It &i) { return fmt("%s %d%+d ms%s from %d", i.msm ? "MSM" : "legacy", i.msm ? base(i.a) + i.kind : i.a, i.off, i.more ? " (more follow)" : " (last)", i.stn); }
static void feed(Ctx &c, Pair &p, const It &i, int pos, int64_t t0, const std::string &how) {
  int64_t tow = (t0 + i.off + WEEK) % WEEK;
  if (i.msm) { int a = 1 + pos * 3; Msg m = msg(i.a, i.kind, i.a == QZS ? bit(1 + pos) : bit(a) | bit(a + 1), SIG2[i.a], tow, i.more, i.stn, (uint32_t)(pos * 100 + i.a)); p.feed(c, m, how.c_str()); }
  else { int a = 2 + pos * 5; p.feed(c, leg(i.a, tow, i.more, i.stn, {a, a + 1}), how.c_str()); }
}
static void order(Ctx &c, int64_t t0, int len, bool wide) {
  auto &v = menu(wide); Pair p(2100, t0); std::string how;
  for (int k = 0; k < len; k++) { auto &i = v[c.choose((uint32_t)v.size(), "message")]; how += (k ? ", then " : "") + name(i); feed(c, p, i, k, t0, how); }
}
static void order3(Ctx &c) { order(c, T0, c.thorough ? 4 : 3, c.thorough); }
static void order_late(Ctx &c) { order(c, c.thorough && c.choose(2, "end of week") ? 604799000 : 604799500 - 500 * c.choose(2, "half second"), c.thorough ? 3 : 2, true); }
// ---- epochs a few milliseconds apart
static void close_epochs(Ctx &c) {
  static const int OFF[] = {0, 1, 2, 200, 500, 999, 1001, -1}; int len = c.thorough ? 4 : 3; Pair p(2100, T0); std::string how; int64_t at = 0;
  for (int k = 0; k < len; k++) {
    static const int K[][3] = {{0, 1004, 0}, {0, 1012, 0}, {0, 1010, 0}, {1, GPS, 7}, {1, GLO, 5}}; auto &q = K[c.choose(5, "message")]; int d = OFF[c.choose(8, "later")]; if (k == 0 && d) return; at += d; It i = {(bool)q[0], q[1], q[2], (int)at, (bool)c.choose(2, "more follow"), 5}; how += (k ? ", then " : "") + name(i); feed(c, p, i, k, T0, how);
  }
}
// ---- the same time of week in another week
static void other_weeks(Ctx &c) {
  int len = c.thorough ? 4 : 3, wn = 2100; Pair p(2100, T0); std::string how;
  for (int k = 0; k < len; k++) {
    int jump = k ? (int[]){0, 1, 2, 52}[c.choose(4, "weeks later")] : 0; if (jump) { wn += jump; p.m.now += jump * WEEK; p.r.know(wn, T0 / 1000.0); how += fmt(", %d weeks later", jump); }
    static const int K[][3] = {{0, 1004, 0}, {0, 1012, 0}, {1, GPS, 7}, {1, GLO, 5}, {1, BDS, 4}}; auto &q = K[c.choose(5, "message")]; It i = {(bool)q[0], q[1], q[2], c.choose(2, "second later") ? 1000 : 0, (bool)c.choose(2, "more follow"), 5}; how += (k ? ", then " : "") + name(i); feed(c, p, i, k, T0, how);
  }
}
// ---- how many measurements
static void counts(Ctx &c) {
  // up to five messages of chosen sizes fill one epoch
  int total = 0, which = (int)c.choose(3, "kind"); Pair p; std::string how; static const int CN[] = {GPS, GAL, BDS, GLO, GPS}; static const int SZ[] = {1, 13, 14, 15, 28, 42, 56, 64, 0};
  int len = c.thorough ? 5 : 4;
  for (int k = 0; k < len; k++) {
    int n = SZ[c.choose(9, "measurements")]; if (!n) { if (k == 0) return; n = 64; } total += n; how += fmt("%s%d measurements", k ? ", " : "", n); bool more = k + 1 < len; int cons = CN[k];
    if (cons == GLO && n > 48) n = 48;
    // n cells: two signals, half the satellites
    Msg m; m.cons = cons; m.kind = 4 + which; int g = n % 2 ? 1 : 2, ns = n / g; if (ns > 32 && cons == GPS) { ns = 32; g = 2; } if (ns > 24 && cons == GLO) ns = 24;
    m.sig_mask = SIG2[cons]; if (g == 1) m.sig_mask = 1u << 30;
    if (k == 4) { m.sig_mask = 1u << 10 | 1u << 8; if (g == 1) m.sig_mask = 1u << 10; }   // other signals of the same satellites
    m.sat_mask = 0; for (int i = 1; i <= ns; i++) m.sat_mask |= bit(i);
    m.all_cells(); m.fill((uint32_t)k + 1); m.epoch = epoch_of(cons, T0); m.mult = more; m.stn = 77; p.feed(c, m, how.c_str());
  }
  Msg m = msg(GPS, 7, bit(3), SIG2[GPS], T0 + 1000, false, 77, 9); p.feed(c, m, (how + ", then the next epoch").c_str());
}
static void legacy_counts(Ctx &c) {
  int n = (int)c.choose(32, "GPS satellites"), g = (int)c.choose(25, "GLONASS satellites"), num = c.choose(2, "second frequency") ? 1004 : 1002; Pair p; std::vector<int> a, b; for (int i = 1; i <= n; i++) a.push_back(i); for (int i = 1; i <= g; i++) b.push_back(i);
  p.feed(c, leg(num, T0, true, 77, a), fmt("%d GPS satellites", n).c_str()); p.feed(c, leg(num == 1004 ? 1012 : 1010, T0, false, 77, b), fmt("%d GPS and %d GLONASS satellites", n, g).c_str());
  p.feed(c, leg(1004, T0 + 1000, false, 77, {1}), "next epoch");
}
// ---- every satellite and signal position
static void positions(Ctx &c) {
  static const int CN[] = {GPS, GLO, GAL, BDS}; int cons = CN[c.choose(4, "constellation")], sat = 1 + (int)c.choose(64, "satellite"), sig = 1 + (int)c.choose(32, "signal"), kind = 4 + (int)c.choose(4, "kind");
  Pair p; if (cons == GLO) for (int i = 1; i <= 28; i++) { sbp_v4_gnss_signal_t s; s.sat = (uint8_t)i; s.code = CODE_GLO_L1OF; rtcm2sbp_set_glo_fcn(s, (uint8_t)(i % 14 + 1), p.r.st()); p.m.fcn[(size_t)i] = i % 14; }
  Msg m = msg(cons, kind, bit(sat), 1u << (32 - sig), T0, false, 4095, (uint32_t)(sat * 32 + sig)); p.feed(c, m, fmt("%d satellite id %d signal id %d", base(cons) + kind, sat, sig).c_str());
}
// two satellites, several signals, every cell mask
static void masks(Ctx &c) {
  static const int CN[] = {GPS, GLO, GAL, BDS}; int cons = CN[c.choose(4, "constellation")], kind = 4 + (int)c.choose(4, "kind"), ns = 2 + (int)c.choose(2, "satellites"), ng = 2 + (int)c.choose(2, "signals"); uint32_t cm = c.choose(1u << (ns * ng), "cells"); static const int SA[] = {2, 11, 20};
  Msg m; m.cons = cons; m.kind = kind; for (int i = 0; i < ns; i++) m.sat_mask |= bit(SA[i]); int n = 0; for (auto &s : SIGNALS[cons]) { if (n == ng) break; m.sig_mask |= 1u << (32 - s.id); n++; }
  for (int i = 0; i < ns * ng; i++) m.cells.push_back(cm >> i & 1); m.fill(cm + 5); m.epoch = epoch_of(cons, T0); m.stn = 0;
  // one of the cells has no range, one no phase
  int nc = m.ncell(); if (nc > 2) { m.sigs[(size_t)(nc / 2)].pr = -(1ll << (widths(kind).pr - 1)); m.sigs[(size_t)(nc - 1)].cp = -(1ll << (widths(kind).cp - 1)); }
  Pair p; p.feed(c, m, fmt("%d cells %x of %dx%d", base(cons) + kind, cm, ns, ng).c_str());
}
// ---- field values
struct Set { const char *f; int64_t v; };
static std::vector<Set> sets(int kind, int cons) {
  W w = widths(kind); std::vector<Set> v; auto put = [&](const char *f, std::initializer_list<int64_t> l) { for (int64_t x : l) v.push_back({f, x}); };
  put("ms", {0, 1, 2, 60, 127, 128, 253, 254, 255}); put("mod", {0, 1, 511, 512, 1023}); int64_t p = 1ll << (w.pr - 1), q = 1ll << (w.cp - 1);
  put("pr", {-p, -p + 1, -p / 2, -1, 0, 1, p / 3, p - 1}); put("cp", {-q, -q + 1, -q / 2, -1, 0, 1, q / 3, q - 1}); put("hca", {0, 1});
  if (w.lock == 4) for (int i = 0; i < 16; i++) v.push_back({"lock", i}); else put("lock", {0, 1, 31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 159, 160, 191, 192, 255, 256, 383, 384, 511, 512, 639, 640, 671, 672, 703, 704});
  if (w.cnr == 6) for (int i = 0; i < 64; i += 3) v.push_back({"cnr", i}); else put("cnr", {0, 1, 2, 3, 7, 8, 9, 10, 11, 255, 256, 511, 512, 719, 720, 1020, 1021, 1022, 1023});
  if (w.ext) { put("rough", {-8192, -8191, -6000, -1200, -1, 0, 1, 1200, 6000, 6240, 6300, 8191}); put("rate", {-16384, -16383, -5001, -1, 0, 1, 4999, 16383}); }
  if (cons == GLO) for (int i = 0; i < 16; i++) v.push_back({"info", i});
  return v;
}
static void apply(Msg &m, const Set &s, size_t k) {
  std::string f = s.f; auto &S = m.sats[0]; auto &G = m.sigs[k];
  if (f == "ms") S.ms = (uint32_t)s.v; else if (f == "mod") S.mod = (uint32_t)s.v; else if (f == "pr") G.pr = s.v; else if (f == "cp") G.cp = s.v; else if (f == "hca") G.hca = (uint32_t)s.v; else if (f == "lock") G.lock = (uint32_t)s.v;
  else if (f == "cnr") G.cnr = (uint32_t)s.v; else if (f == "rough") S.rate = (int32_t)s.v; else if (f == "rate") G.rate = (int32_t)s.v; else S.info = (uint32_t)s.v;
}
static void values(Ctx &c) {
  static const int CN[] = {GPS, GLO, GAL, BDS}; int cons = CN[c.choose(4, "constellation")], kind = 4 + (int)c.choose(4, "kind"); auto v = sets(kind, cons); auto &a = v[c.choose((uint32_t)v.size(), "field value")], &b = v[c.choose((uint32_t)v.size(), "field value")];
  Msg m = msg(cons, kind, bit(9), SIG2[cons], T0, false, 1, 3); for (size_t k = 0; k < 2; k++) { apply(m, a, k); apply(m, b, k); if (std::string(b.f) == "pr" || k) continue; }
  if (cons == GLO && m.kind % 2 == 0) { /* channel unknown unless the map has it */ }
  Pair p; if (cons == GLO && (a.v & 1)) { sbp_v4_gnss_signal_t s; s.sat = 9; s.code = CODE_GLO_L1OF; rtcm2sbp_set_glo_fcn(s, 4, p.r.st()); p.m.fcn[9] = 3; }
  p.feed(c, m, fmt("%d with %s=%lld, %s=%lld", base(cons) + kind, a.f, (long long)a.v, b.f, (long long)b.v).c_str());
}
static void all_ranges(Ctx &c) {   // every rough range and every indicator of one kind
  int kind = 4 + (int)c.choose(4, "kind"), what = (int)c.choose(3, "field"), hi = (int)c.choose(16, "block"); Pair p; static const int LIM[] = {256, 1024, 1024};
  for (int x = LIM[what] / 16 * hi; x < LIM[what] / 16 * (hi + 1); x++) {
    Msg m = msg(GAL, kind, bit(36), SIG2[GAL], T0 + x * 10, false, 1, 3); if (what == 0) m.sats[0].ms = (uint32_t)x; if (what == 1) { m.sigs[0].lock = (uint32_t)x & ((1u << widths(kind).lock) - 1); m.sigs[1].lock = m.sigs[0].lock; } if (what == 2) { m.sigs[0].cnr = (uint32_t)x & ((1u << widths(kind).cnr) - 1); }
    p.feed(c, m, fmt("%d, %s %d", 1090 + kind, what == 0 ? "rough range" : what == 1 ? "lock indicator" : "C/N0", x).c_str());
  }
}
static void legacy_values(Ctx &c) {
  int num = (int[]){1002, 1004, 1010, 1012}[c.choose(4, "number")]; bool glo = num >= 1010; struct V { int f; int64_t v; }; std::vector<V> l; auto put = [&](int f, std::initializer_list<int64_t> x) { for (int64_t y : x) l.push_back({f, y}); };
  for (int i = 0; i < 64; i++) put(0, {i}); put(1, {0, 1}); put(2, {0, 1, 6, 7, 8, 13, 14, 20, 21, 31}); put(3, {0, 1, 0x7FFFF, 0x80000, 0x80001, glo ? 29979245 : 14989622}); put(4, {-524288, -524287, -1, 0, 1, 524287});
  put(5, {0, 1, 23, 24, 47, 48, 71, 72, 95, 96, 119, 120, 126, 127}); put(6, {0, 1, glo ? 127 : 255}); put(7, {0, 1, 2, 127, 254, 255});
  if (num == 1004 || num == 1012) { put(8, {0, 1, 2, 3}); put(9, {-8192, -8191, -1, 0, 1, 8191}); put(10, {-524288, -524287, -1, 0, 1, 524287}); put(11, {0, 24, 47, 48, 120, 127}); put(12, {0, 1, 255}); }
  Leg m = leg(num, T0, false, 9, {5, 6}); std::string how = fmt("%d", num);
  for (int k = 0; k < 2; k++) {
    auto &x = l[c.choose((uint32_t)l.size(), "field value")]; how += fmt(" field %d = %lld", x.f, (long long)x.v); auto &s = m.s[0];
    switch (x.f) { case 0: s.id = (int)x.v; break; case 1: s.code1 = (int)x.v; break; case 2: s.fcn = (int)x.v; break; case 3: s.pr = x.v; break; case 4: s.ph = x.v; break; case 5: s.lock = x.v; break; case 6: s.amb = x.v; break; case 7: s.cnr = x.v; break;
      case 8: s.code2 = (int)x.v; break; case 9: s.pr2 = x.v; break; case 10: s.ph2 = x.v; break; case 11: s.lock2 = x.v; break; default: s.cnr2 = x.v; }
  }
  if (m.s[0].id == 6 || (!glo && m.s[0].id == 46)) m.s[1].id = 7;
  Pair p; p.feed(c, m, how.c_str());
}
// ---- corrections the user asks for
static void biases(Ctx &c) {
  static const int CN[] = {GPS, GLO, GAL, BDS}; int cons = CN[c.choose(4, "constellation")], sig = (int)c.choose((uint32_t)SIGNALS[cons].size(), "signal"), kind = 4 + (int)c.choose(4, "kind"), legacy = (int)c.choose(2, "legacy"); static const float B[] = {0, 1.5f, -2.25f, -2000.0f};
  float b = B[c.choose(4, "code bias")], gc = B[c.choose(3, "GLONASS code bias")], gp = B[c.choose(3, "GLONASS phase bias")]; int fcn = (int[]){0, 7, 13}[c.choose(3, "channel")]; auto &S = SIGNALS[cons][(size_t)sig];
  if (cons != GLO && (gc != 0 || gp != 0 || fcn != 7)) return;
  if (legacy && (kind != 7 || (cons != GPS && cons != GLO))) return;
  Pair p; std::vector<Cell> w; std::string how = fmt("code %d biased %g, GLONASS %g/%g, channel %d", S.code, b, gc, gp, fcn); c.at("%s", how.c_str());
  sbp_signal_biases[S.code] = b; sbp_glo_code_bias[0] = gc; sbp_glo_phase_bias[0] = gp; sbp_glo_code_bias[1] = 2 * gc; sbp_glo_phase_bias[1] = 3 * gp;
  if (legacy) { Leg m = leg(cons == GPS ? 1004 : 1012, T0, false, 3, {4}); m.s[0].fcn = fcn; p.m.feed(m); for (auto &e : p.m.out) for (auto &x : e.cells) { if (x.code == S.code) x.P += b; if (cons == GLO) { int f = x.code == CODE_GLO_L2OF; x.P += (fcn - 7) * (double)sbp_glo_code_bias[f]; x.L += (fcn - 7) * (double)sbp_glo_phase_bias[f]; } } p.r.payload(m.bytes()); }
  else {
    Msg m = msg(cons, kind, bit(4), 1u << (32 - S.id), T0, false, 3, 8); if (b < -100) { m.sats[0].ms = 0; m.sats[0].mod = 1; m.sigs[0].pr = 0; }
    if (cons == GLO) { m.sats[0].info = (uint32_t)fcn; if (kind % 2 == 0) { sbp_v4_gnss_signal_t s; s.sat = 4; s.code = CODE_GLO_L1OF; rtcm2sbp_set_glo_fcn(s, (uint8_t)(fcn + 1), p.r.st()); p.m.fcn[4] = fcn; } }
    p.m.feed(m); for (auto &e : p.m.out) for (auto &x : e.cells) { x.P += b; if (cons == GLO) { int f = S.id >= 8; x.P += (fcn - 7) * (double)sbp_glo_code_bias[f]; x.L += (fcn - 7) * (double)sbp_glo_phase_bias[f]; } }
    p.r.payload(m.bytes());
  }
  compare(c, p.m, p.r, how.c_str()); c.step(); conv::all_constellations();
}
// ---- where the channel of a GLONASS satellite comes from
static void channels(Ctx &c) {
  int len = 3; Pair p; std::string how; 
  for (int k = 0; k < len; k++) {
    uint32_t x = c.choose(8, "step"); sbp_v4_gnss_signal_t s; s.code = CODE_GLO_L1OF; s.sat = 9;
    if (x < 4) { static const uint8_t F[] = {0, 1, 14, 15}; rtcm2sbp_set_glo_fcn(s, F[x], p.r.st()); p.m.fcn[9] = F[x] >= 1 && F[x] <= 14 ? F[x] - 1 : -1; how += fmt("channel %d set; ", F[x]); }
    else if (x == 4) { s.sat = 29; rtcm2sbp_set_glo_fcn(s, 3, p.r.st()); s.sat = 0; rtcm2sbp_set_glo_fcn(s, 3, p.r.st()); how += "channel of no satellite set; "; }
    else if (x == 5) { s.sat = 10; rtcm2sbp_set_glo_fcn(s, 5, p.r.st()); p.m.fcn[10] = 4; how += "channel of the next satellite set; "; }
    else { Msg m = msg(GLO, x == 6 ? 7 : 6, bit(9) | bit(10), SIG2[GLO], T0 + 1000 * k, false, 3, 8); how += x == 6 ? "MSM7; " : "MSM6; "; p.feed(c, m, how.c_str()); }
  }
  for (int kind : {4, 5}) { Msg m = msg(GLO, kind, bit(9) | bit(10), SIG2[GLO], T0 + 5000 + kind * 100, false, 3, 8); p.feed(c, m, (how + "then " + std::to_string(1080 + kind)).c_str()); }
}
int main(int argc, char **argv) {
  Spec s; s.property = "C14"; s.rule = "all sequences of observation messages from a menu of sources, epochs, stations and continuation flags, all epoch sizes, every satellite, signal and cell position, pairs of field values and user corrections; each compared after every message with an independent model of the epoch buffer and of every measurement";
  s.assumptions = {"a station sends each measurement once per epoch", "sequences without any measurement may be announced or not", "the order of measurements within an epoch is free", "epochs of more than 210 measurements keep the first 210"};
  s.scenarios = {{"order", order3}, {"week end", order_late}, {"close epochs", close_epochs}, {"other weeks", other_weeks}, {"counts", counts}, {"legacy counts", legacy_counts}, {"positions", positions}, {"masks", masks}, {"values", values}, {"every value", all_ranges}, {"legacy values", legacy_values}, {"biases", biases}, {"channels", channels}};
  return run(argc, argv, s);
}
