// C15: times of RTCM messages resolve to the week and time of week they denote
#include "obsref.hpp"
#include "rtcmref.hpp"
using namespace mc; using namespace obsref; using namespace msmref;
static const int64_t SEC = 1000, HOUR = 3600 * SEC;
// converter times: week starts and ends, GPS and GLONASS day boundaries, noon, around the leap second of week 1930
struct At { int wn; int64_t tow; };
static std::vector<At> ats(bool th) {
  std::vector<At> v; std::vector<int64_t> t = {0, 1, 14, 17, 18, 19, 43200, 75599, 75600, 75617, 75618, 75619, 86399, 86400, 86418, 302399, 302400, 302401, 345600, 475218, 518400, 594017, 594018, 594019, 604780, 604785, 604786, 604799};
  for (int wn : {2100, 2047, 2048}) for (int64_t x : t) { v.push_back({wn, x * SEC}); if (th) { v.push_back({wn, x * SEC + 500}); v.push_back({wn, x * SEC + 250}); } }
  for (int64_t x : {0, 10, 40, 60, 75600, 302400}) { v.push_back({1930, x * SEC}); v.push_back({1929, 604799 * SEC - x * SEC}); }
  return v;
}
static int leap_at(int wn, int64_t tow) { return wn * WEEK + tow >= 1930ll * WEEK + 18000 ? 18 : 17; }
// no case where the message and the reference are on different sides of a leap second
static bool crosses(const At &a, int64_t d) { int64_t e = 1930ll * WEEK + 18000, x = a.wn * WEEK + a.tow, y = x + d; return (x < e + 2000) != (y < e + 2000) || (x < e - 2000) != (y < e - 2000); }
static const int64_t OFF[] = {0, -1, 1, -999, 999, 1000, -1000, -5000, 5000, -9999, -10000, -10001, 10000, -11000, 17000, 18000, 29000, 30000, -12000, 47999, 48000, -31000, 60000, -60000, 3600000, -3600000, 10800000, -10800000, 43199999, -43199999, 43200001, -43200001, 86400000, -86400000, 86399999, 302399999, -302399999};
static const int NOFF = (int)(sizeof OFF / sizeof *OFF);
static uint32_t raw_time(int cons, int64_t t, int leap) {
  if (cons == GLO) { int64_t d = t - leap * 1000 + 3 * HOUR; return (uint32_t)(5u << 27 | (uint32_t)(d % DAY)); }
  if (cons == BDS) t -= 14000; return (uint32_t)(t % WEEK);
}
static Msg simple(int cons, int kind, uint32_t raw, bool more = false, int sat = 4) { Msg m; m.cons = cons; m.kind = kind; m.sat_mask = 1ull << (64 - sat); m.sig_mask = 1u << 30; m.all_cells(); m.fill(7); m.epoch = raw; m.mult = more; return m; }
static Leg simple_leg(bool glo, uint32_t raw) { Leg l; l.num = glo ? 1012 : 1004; l.t = raw & (glo ? 0x7FFFFFF : ~0u); LegSat s; s.id = 4; if (glo) s.amb = 36; l.s.push_back(s); return l; }
static void stale(Ctx &c, Pair &p, const std::string &how) { CHK(c, (p.r.stale.size() > 0) == p.m.stale, "%s: base observation delay %s", how.c_str(), p.m.stale ? "not reported" : "reported"); p.r.stale.clear(); p.m.stale = false; }
static const char *CN[] = {"GPS", "SBAS", "GLONASS", "BeiDou", "QZSS", "Galileo"};
// one message of every source at every reference time and offset
static void once(Ctx &c) {
  auto v = ats(c.thorough); auto &a = v[c.choose((uint32_t)v.size(), "converter time")]; int src = (int)c.choose(6, "source"); int64_t d = OFF[c.choose((uint32_t)NOFF, "message minus converter time")];
  if (crosses(a, d)) return;
  int leap = leap_at(a.wn, a.tow); int64_t t = a.wn * WEEK + a.tow + d; Pair p(a.wn, a.tow, leap); static const int CO[] = {GPS, GLO, GAL, BDS, GPS, GLO}; int cons = CO[src];
  std::string how = fmt("%s %s %+lld ms from %d/%lld", src < 4 ? "MSM" : "legacy", CN[cons], (long long)d, a.wn, (long long)a.tow); uint32_t raw = raw_time(cons, t, leap);
  if (src < 4) p.feed(c, simple(cons, 4 + (int)(raw % 4), raw), how.c_str()); else p.feed(c, simple_leg(cons == GLO, raw), how.c_str());
  stale(c, p, how);
}
// a second message after the first: GLONASS times may also be confirmed by the last GPS time
static void twice(Ctx &c) {
  static const At A[] = {{2100, 345600000}, {2100, 604799000}, {2100, 18000}, {2100, 75618000}, {1930, 40000}, {2048, 10000}}; auto &a = A[c.choose(6, "converter time")]; static const int64_t D[] = {0, 1000, -1000, -20000, -60000, 25000, 30000, -3600000, 86400000, -302399000};
  int s1 = (int)c.choose(6, "first"), s2 = (int)c.choose(6, "second"); int64_t d1 = D[c.choose(10, "first offset")], d2 = d1 + (int64_t[]){0, 1000, -1000, 17000, 19000, 48000, -12000, -13000, 6000}[c.choose(9, "second offset")]; if (crosses(a, d1) || crosses(a, d2) || std::llabs(d1) >= WEEK / 2 || std::llabs(d2) >= WEEK / 2 || std::llabs(d1) == DAY / 2) return;
  int leap = leap_at(a.wn, a.tow); Pair p(a.wn, a.tow, leap); static const int CO[] = {GPS, GLO, GAL, BDS, GPS, GLO}; std::string how;
  for (int k = 0; k < 2; k++) { int s = k ? s2 : s1; int64_t d = k ? d2 : d1; uint32_t raw = raw_time(CO[s], a.wn * WEEK + a.tow + d, leap); how += fmt("%s%s %s %+lld ms", k ? ", " : "", s < 4 ? "MSM" : "legacy", CN[CO[s]], (long long)d); if (s < 4) p.feed(c, simple(CO[s], 7, raw, !k), how.c_str()); else p.feed(c, simple_leg(CO[s] == GLO, raw), how.c_str()); stale(c, p, how); }
}
// values of the time field that denote nothing
static void invalid(Ctx &c) {
  int src = (int)c.choose(6, "source"); static const int CO[] = {GPS, GLO, GAL, BDS, GPS, GLO}; int cons = CO[src]; static const uint32_t G[] = {0, 1, 604785999, 604786000, 604799998, 604799999, 604800000, 604800001, 604813999, 604814000, 800000000, (1u << 30) - 14001, (1u << 30) - 14000, (1u << 30) - 13999, (1u << 30) - 1};
  static const uint32_t R[] = {0, 1, 10800000, 86399999, 86400000, 86400999, 86401000, 86401001, 100000000, (1u << 27) - 1}; At a[] = {{2100, 345600000}, {2100, 604799000}, {2100, 0}, {2100, 75618000}, {2100, 75617000}}; auto &x = a[c.choose(5, "converter time")];
  uint32_t raw = cons == GLO ? R[c.choose(10, "time field")] | (src < 4 ? c.choose(8, "day of week") << 27 : 0) : G[c.choose(15, "time field")]; Pair p(x.wn, x.tow, 18); std::string how = fmt("%s %s time field %u at %d/%lld", src < 4 ? "MSM" : "legacy", CN[cons], raw, x.wn, (long long)x.tow);
  if (src < 4) p.feed(c, simple(cons, 6, raw), how.c_str()); else p.feed(c, simple_leg(cons == GLO, raw), how.c_str()); stale(c, p, how);
}
// a stream of epochs while the converter's own time runs across a boundary
static void march(Ctx &c) {
  static const At B[] = {{2101, 0}, {2100, 75618000}, {2100, 86400000}, {2101, 14000}, {2100, 302400000}, {2048, 0}}; auto &b = B[c.choose(6, "boundary")]; int64_t step = (int64_t[]){1000, 500, 4000, 5000, 200}[c.choose(5, "step")], lat = (int64_t[]){0, 500, 1500, 3000, 9000, -1000, -3500}[c.choose(7, "delay")]; int mask = 1 + (int)c.choose(63, "sources");
  int64_t bt = b.wn * WEEK + b.tow, t0 = bt - 10 * step; int n = c.thorough ? 40 : 20; static const int CO[] = {GPS, GLO, GAL, BDS, GPS, GLO}; std::string how0 = fmt("sources %02x every %lld ms, %lld ms late, around %d/%lld", mask, (long long)step, (long long)lat, b.wn, (long long)b.tow);
  int64_t start = (t0 + lat) / 1000 * 1000; Pair p((int)(start / WEEK), start % WEEK, 18);
  for (int k = 0; k < n; k++) {
    int64_t t = t0 + k * step, now = (t + lat) / 500 * 500; if (k && now > p.m.now) { p.r.know((int)(now / WEEK), (double)(now % WEEK) / 1000); p.m.now = now; }
    int last = -1; for (int s = 0; s < 4; s++) if (mask >> s & 1) last = s;
    for (int s = 0; s < 6; s++) if (mask >> s & 1) { uint32_t raw = raw_time(CO[s], t, 18); std::string how = how0 + fmt(": epoch %d", k); if (s < 4) p.feed(c, simple(CO[s], 7, raw, s != last), how.c_str()); else p.feed(c, simple_leg(CO[s] == GLO, raw), how.c_str()); stale(c, p, how); }
  }
}
// corrections: epochs in seconds
static void ssr(Ctx &c) {
  auto v = ats(false); auto &a = v[c.choose((uint32_t)v.size(), "converter time")]; static const int CO[] = {GPS, GLO, GAL, BDS, QZS}; int cons = CO[c.choose(5, "constellation")]; int64_t d = OFF[c.choose((uint32_t)NOFF, "offset")] / 1000 * 1000;
  if (crosses(a, d)) return; int what = (int)c.choose(3, "message"); int leap = leap_at(a.wn, a.tow); int64_t t = a.wn * WEEK + a.tow + d; if (cons == GLO && std::llabs(d) >= DAY / 2) return;
  rtcmref::Shape s = rtcmref::ssr(cons, what == 0 ? rtcmref::CODE : what == 1 ? rtcmref::COMBINED : rtcmref::PHASE, {2}); rtcmref::Raw r = s.defaults(); uint32_t raw = raw_time(cons, t, leap); if (cons == GLO) raw &= 0x7FFFFFF; r[1] = raw / 1000;
  R2S x; x.know(a.wn, (double)a.tow / 1000); c.at("%s", s.name.c_str()); x.payload(s.bytes(r)); int n = 0; c.step();
  for (auto &e : x.out) { sbp_gps_time_sec_t w; if (e.type == SbpMsgSsrCodeBiases) w = e.m.ssr_code_biases.time; else if (e.type == SbpMsgSsrOrbitClock) w = e.m.ssr_orbit_clock.time; else if (e.type == SbpMsgSsrPhaseBiases) w = e.m.ssr_phase_biases.time; else continue; n++;
    int64_t g = w.wn * WEEK + w.tow * 1000ll; CHK(c, g == t / 1000 * 1000, "%s correction epoch %+lld ms from %d/%lld resolved to %d/%u", CN[cons], (long long)d, a.wn, (long long)a.tow, w.wn, w.tow); c.state((uint64_t)g); c.traced(); }
  CHK(c, n == 1, "%s correction %+lld ms from %d/%lld: %d messages", CN[cons], (long long)d, a.wn, (long long)a.tow, n);
}
static void ssr_invalid(Ctx &c) {
  static const int CO[] = {GPS, GLO, GAL, BDS, QZS}; int cons = CO[c.choose(5, "constellation")], what = (int)c.choose(3, "message"); int64_t e = (int64_t[]){0, 604785, 604786, 604799, 604800, 604801, 1048575, 86399, 86400, 86401, 100000, 131071}[c.choose(12, "epoch")]; if (cons == GLO && e > 131071) return; int day = (int)c.choose(8, "day");
  rtcmref::Shape s = rtcmref::ssr(cons, what == 0 ? rtcmref::CODE : what == 1 ? rtcmref::COMBINED : rtcmref::PHASE, {1}); rtcmref::Raw r = s.defaults(); r[1] = e; R2S x; x.know(2100, day < 7 ? day * 86400.0 + 1 : 604799); x.payload(s.bytes(r)); c.step(); c.traced();
  bool ok = cons == GLO ? e <= 86400 : e < 604800; CHK(c, (x.out.size() == 1) == ok, "%s correction with epoch %lld: %zu messages", CN[cons], (long long)e, x.out.size()); c.state((uint64_t)(e * 8 + day));
}
// GLONASS ephemeris: the day nearest to the converter's time
static void eph(Ctx &c) {
  auto v = ats(false); auto &a = v[c.choose((uint32_t)v.size(), "converter time")]; int tb = (int)c.choose(128, "interval"); rtcmref::Shape s = rtcmref::m1020(true); rtcmref::Raw r = s.defaults(); for (size_t i = 0; i < s.f.size(); i++) if (s.f[i].name == "tb") r[i] = tb;
  int leap = leap_at(a.wn, a.tow); int64_t now = a.wn * WEEK + a.tow, t = tb * 900000ll - 3 * HOUR + leap * 1000; while (t < now - DAY / 2) t += DAY; if (t == now + DAY / 2 || t == now - DAY / 2) return; while (t > now + DAY / 2) t -= DAY;
  if (crosses(a, t - now)) return; R2S x; x.know(a.wn, (double)a.tow / 1000); x.payload(s.bytes(r)); int n = 0; c.step();
  for (auto &e : x.out) if (e.type == SbpMsgEphemerisGlo) { n++; auto &w = e.m.ephemeris_glo.common.toe; int64_t g = w.wn * WEEK + w.tow * 1000ll; CHK(c, g == t, "GLONASS ephemeris of interval %d at %d/%lld has time %d/%u", tb, a.wn, (long long)a.tow, w.wn, w.tow); c.state((uint64_t)g); c.traced(); }
  CHK(c, n == (tb <= 96), "GLONASS ephemeris of interval %d: %d messages", tb, n);
}
// before the time is known
static void unknown(Ctx &c) {
  int n = 1 + (int)c.choose(2, "messages"); R2S x; std::string how;
  auto one = [&](uint32_t k) -> Bytes {
    static const int CO[] = {GPS, GLO, GAL, BDS}; if (k < 16) return simple(CO[k / 4], 4 + (int)(k % 4), raw_time(CO[k / 4], 2100 * WEEK + 345600000, 18)).bytes(); if (k == 16) return simple_leg(false, 345600000).bytes(); if (k == 17) return simple_leg(true, 10782000).bytes(); if (k == 18) { Leg l = simple_leg(true, 10782000); l.num = 1010; return l.bytes(); }
    if (k == 19) { auto s = rtcmref::m1020(false); return s.bytes(s.defaults()); }
    auto s = rtcmref::ssr((int[]){GPS, GLO, GAL, BDS, QZS}[(k - 20) % 5], (k - 20) / 5 ? rtcmref::COMBINED : rtcmref::CODE, {1}); return s.bytes(s.defaults()); };
  for (int i = 0; i < n; i++) { uint32_t k = c.choose(30, "message"); how += fmt(" %u", k); x.payload(one(k)); c.step(); }
  for (auto &e : x.out) { bool timed = e.type == SbpMsgObs ? e.m.obs.n_obs > 0 : e.type != SbpMsgLog; CHK(c, !timed, "time unknown, messages%s: %s", how.c_str(), conv::show(e).c_str()); }
  // once known, the same converter works
  x.take(); x.know(2100, 345600); x.payload(simple(GLO, 7, raw_time(GLO, 2100 * WEEK + 345600000, 18)).bytes()); int m = 0; for (auto &e : x.out) if (e.type == SbpMsgObs && e.m.obs.n_obs) { m++; CHK(c, e.m.obs.header.t.wn == 2100 && e.m.obs.header.t.tow == 345600000, "time %d/%u", e.m.obs.header.t.wn, e.m.obs.header.t.tow); }
  CHK(c, m == 1, "GLONASS after the time became known: %d epochs", m); c.traced(); c.state(hash_str(how));
}
// the last week: no week after it
static void ends(Ctx &c) {
  int wn = (int[]){32767, 32766, 2300, 2048}[c.choose(4, "week")]; int64_t tow = (int64_t[]){0, 1000, 86400000, 302400000, 302401000, 518400000, 604799000}[c.choose(7, "time of week")]; int src = (int)c.choose(6, "source"); static const int CO[] = {GPS, GLO, GAL, BDS, GPS, GLO}; int cons = CO[src];
  static const int64_t T[] = {0, 1000, 13000, 14000, 43200000, 86399000, 86400000, 200000000, 302399000, 302400000, 302401000, 400000000, 604799000}; int64_t m = T[c.choose(13, "message time")]; if (cons == GLO && m >= 86400000) return;
  uint32_t raw = cons == GLO ? (uint32_t)(src < 4 ? 7u << 27 | (uint32_t)m : (uint32_t)m) : cons == BDS ? (uint32_t)((m + WEEK - 14000) % WEEK) : (uint32_t)m; std::string how = fmt("%s %s time field %u at %d/%lld", src < 4 ? "MSM" : "legacy", CN[cons], raw, wn, (long long)tow);
  R2S x; x.know(wn, (double)tow / 1000); c.at("%s", how.c_str()); if (src < 4) x.payload(simple(cons, 7, raw).bytes()); else x.payload(simple_leg(cons == GLO, raw).bytes()); c.step(); c.traced();
  int64_t d = m - tow; int ew = d > WEEK / 2 ? wn - 1 : d < -WEEK / 2 ? wn + 1 : wn; bool tie = std::llabs(d) == WEEK / 2;
  for (auto &e : x.out) if (e.type == SbpMsgObs && e.m.obs.n_obs) { auto &t = e.m.obs.header.t; CHK(c, t.tow < WEEK && t.wn <= 32767, "%s: time %d/%u", how.c_str(), t.wn, t.tow); if (cons != GLO) { CHK(c, t.tow == m, "%s: time %d/%u", how.c_str(), t.wn, t.tow); if (!tie && ew >= 0 && ew <= 32767) CHK(c, t.wn == ew, "%s: week %d, expected %d", how.c_str(), t.wn, ew); } c.state(mix((uint64_t)t.wn, t.tow)); }
}
int main(int argc, char **argv) {
  Spec s; s.property = "C15"; s.rule = "every reference time (weeks, days, leap second, year) x every message offset x every source, pairs of messages, streams of epochs across boundaries, all invalid time fields, correction epochs and ephemeris intervals, and the last weeks that can be expressed, against an integer-millisecond model";
  s.assumptions = {"reference and message on the same side of a leap second (the code documents that the event itself is not handled)", "GLONASS observations further than 30 s from the reference are dropped, as in the code (offset by the leap seconds)", "ties at exactly half a week are not examined"};
  s.scenarios = {{"once", once}, {"twice", twice}, {"invalid", invalid}, {"march", march}, {"ssr", ssr}, {"ssr invalid", ssr_invalid}, {"glonass ephemeris", eph}, {"unknown", unknown}, {"ends", ends}};
  return run(argc, argv, s);
}
