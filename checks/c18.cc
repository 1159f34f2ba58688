// C18: RTCM ephemeris messages become SBP ephemerides with the same content
#include "conv.hpp"
#include "rtcmref.hpp"
using namespace mc; using namespace conv; using rtcmref::Shape; using rtcmref::Raw;
enum { K1019, K1020A, K1020B, K1042, K1044, K1045, K1046, NK };
static const Shape &shape(int k) { static std::vector<Shape> v = {rtcmref::m1019(), rtcmref::m1020(false), rtcmref::m1020(true), rtcmref::m1042(), rtcmref::m1044(), rtcmref::m104x(false), rtcmref::m104x(true)}; return v[(size_t)k]; }
struct Row { const char *n; double got, want, rel; };
static const int64_t WEEK = 604800;
static const double GPS_URA[] = {2, 2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 6144};
static const double BDS_URA[] = {2, 2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192};
static const double GLO_FT[] = {1, 2, 2.5, 4, 5, 7, 10, 12, 14, 16, 32, 64, 128, 256, 512, 6144};
static double sisa(int i) { return i <= 49 ? i * 0.01 : i <= 74 ? 0.5 + (i - 50) * 0.02 : i <= 99 ? 1 + (i - 75) * 0.04 : i <= 125 ? 2 + (i - 100) * 0.16 : -1; }
static int fit_gps(int flag, int iodc) {   // IS-GPS-200 table 20-XII
  if (!flag) return 4; if (iodc >= 240 && iodc <= 247) return 8; if ((iodc >= 248 && iodc <= 255) || iodc == 496) return 14; if ((iodc >= 497 && iodc <= 503) || iodc >= 1021) return 26;
  if (iodc >= 504 && iodc <= 510) return 50; if (iodc == 511 || (iodc >= 752 && iodc <= 756)) return 74; if (iodc == 757) return 98; return 6;
}
struct Now { int wn; int64_t tow; bool known; };
static int64_t fdiv(int64_t a, int64_t b) { int64_t q = a / b; return q * b > a ? q - 1 : q; }
// full time of a time of week (seconds, may be past the week for BeiDou): nearest to the converter's time, else the message's week
static int64_t full(const Now &now, int64_t week, int64_t tow) {
  if (!now.known) { int64_t t = week * WEEK + tow; int64_t w = t / WEEK; while (w < 1876) w += 1024; return w * WEEK + t % WEEK; }
  int64_t ref = now.wn * WEEK + now.tow; tow %= WEEK; return tow + WEEK * fdiv(ref - tow + WEEK / 2, WEEK);
}
static bool tie(const Now &now, int64_t tow) { return now.known && ((now.wn * WEEK + now.tow - tow) % WEEK + WEEK) % WEEK == WEEK / 2; }
static int64_t tm(const sbp_gps_time_sec_t &t) { return t.wn * WEEK + t.tow; }
// feeds the message and compares all that comes out; what the rules do not settle is left out
static void check(Ctx &c, int k, const Raw &r, const Now &now, const std::string &how) {
  const Shape &s = shape(k); auto V = [&](const char *n) -> double { for (size_t i = 0; i < s.f.size(); i++) if (s.f[i].name == n) return (double)r[i]; abort(); };
  auto X = [&](const std::string &n) { return V(n.c_str()); };
  bool glo = k == K1020A || k == K1020B, gal = k == K1045 || k == K1046, bds = k == K1042, qzs = k == K1044, gps = k == K1019; int sat = (int)V("sat");
  int64_t toe = 0, toc = 0; bool ok = now.known || gps || bds || gal;
  if (glo) { if (V("fcn") > 13 || V("tb") > 95 || sat > 28) return; if (sat == 0) ok = false; }
  else {
    int64_t u = gps || qzs ? 16 : gal ? 60 : 8, add = bds ? 14 : 0; toe = (int64_t)V("toe") * u; toc = (int64_t)V("toc") * u;
    if (toe >= WEEK || toc >= WEEK) { if (bds) return; ok = false; }
    if (tie(now, toe + add) || tie(now, toc + add)) return; int64_t w = (int64_t)V("week") + (bds ? 1356 : gal ? 1024 : 0); toe = full(now, w, toe + add); toc = full(now, w, toc + add);
    if (bds && sat <= 5) ok = false; else if (sat < 1 || sat > (gps ? 32 : bds ? 64 : gal ? 36 : 10)) return;
  }
  R2S x; if (now.known) x.know(now.wn, (double)now.tow); c.at("%s", how.c_str()); x.payload(s.bytes(r)); c.step(); c.traced();
  static const int T[] = {SbpMsgEphemerisGps, SbpMsgEphemerisGlo, SbpMsgEphemerisGlo, SbpMsgEphemerisBds, SbpMsgEphemerisQzss, SbpMsgEphemerisGal, SbpMsgEphemerisGal};
  CHK(c, x.out.size() == (ok ? 1u : 0u), "%s: %zu messages, %d expected", how.c_str(), x.out.size(), ok); if (x.out.size() != 1 || !ok) return;
  auto &e = x.out[0]; CHK(c, e.type == T[k] && e.sender == sender(0), "%s: message %x from %04x", how.c_str(), e.type, e.sender); if (e.type != T[k]) return;
  c.state(hash_str(show(e))); std::vector<Row> v; const double F = 1.3e-7, D = 1e-14; auto P = [](int n) { return std::ldexp(1.0, n); };
  auto common = [&](auto &g, int code, int first, double ura, int fit, double health) { v.push_back({"satellite", (double)g.sid.sat, (double)(sat + first), 0}); v.push_back({"signal", (double)g.sid.code, (double)code, 0}); v.push_back({"accuracy", g.ura, ura, F}); v.push_back({"fit interval", (double)g.fit_interval, (double)fit, 0}); v.push_back({"health", (double)g.health_bits, health, 0}); };
  auto kepler = [&](auto &g, double cr, double cu, double a0, double a1, double a2, double iode, double iodc, double A) {
    v.push_back({"toe", (double)tm(g.common.toe), (double)toe, 0}); v.push_back({"toc", (double)tm(g.toc), (double)toc, 0}); v.push_back({"iode", (double)g.iode, iode, 0}); v.push_back({"iodc", (double)g.iodc, iodc, 0});
    v.push_back({"crs", g.c_rs, V("crs") * cr, F}); v.push_back({"crc", g.c_rc, V("crc") * cr, F}); v.push_back({"cuc", g.c_uc, V("cuc") * cu, F}); v.push_back({"cus", g.c_us, V("cus") * cu, F}); v.push_back({"cic", g.c_ic, V("cic") * cu, F}); v.push_back({"cis", g.c_is, V("cis") * cu, F});
    v.push_back({"dn", g.dn, V("dn") * P(-43) * M_PI, D}); v.push_back({"m0", g.m0, V("m0") * P(-31) * M_PI, D}); v.push_back({"ecc", g.ecc, V("ecc") * P(-33), D}); v.push_back({"sqrta", g.sqrta, V("sqrta") * P(-19), D}); v.push_back({"omega0", g.omega0, V("omega0") * P(-31) * M_PI, D});
    v.push_back({"omegadot", g.omegadot, V("omegadot") * P(-43) * M_PI, D}); v.push_back({"w", g.w, V("w") * P(-31) * M_PI, D}); v.push_back({"inc", g.inc, V("inc") * P(-31) * M_PI, D}); v.push_back({"inc_dot", g.inc_dot, V("inc_dot") * P(-43) * M_PI, D});
    v.push_back({"af0", (double)g.af0, V("af0") * a0, A}); v.push_back({"af1", (double)g.af1, V("af1") * a1, sizeof g.af1 == 8 ? D : F}); v.push_back({"af2", g.af2, V("af2") * a2, F}); };
  if (gps || qzs) {
    auto &g = e.m.ephemeris_gps; int iodc = (int)V("iodc"), iode = (int)V("iode"); common(g.common, gps ? 0 : 31, qzs ? 192 : 0, GPS_URA[(int)V("accuracy")], 3600 * fit_gps((int)V("fit"), iodc), V("health")); v.push_back({"valid", (double)g.common.valid, (double)((iodc & 255) == iode), 0}); v.push_back({"tgd", g.tgd, V("tgd") * P(-31), F});
    kepler(g, P(-5), P(-29), P(-31), P(-43), P(-55), iode, iodc, F);
  } else if (gal) {
    auto &g = e.m.ephemeris_gal; common(g.common, 14, 0, sisa((int)V("accuracy")), 4 * 3600, V("health")); v.push_back({"valid", (double)g.common.valid, 1, 0}); v.push_back({"bgd e1e5a", g.bgd_e1e5a, V("bgd1") * P(-32), F}); v.push_back({"bgd e1e5b", g.bgd_e1e5b, k == K1046 ? V("bgd2") * P(-32) : 0, F});
    v.push_back({"source", (double)g.source, k == K1045 ? 1.0 : 0.0, 0}); kepler(g, P(-5), P(-29), P(-34), P(-46), P(-59), V("iod"), V("iod"), D);
  } else if (bds) {
    auto &g = e.m.ephemeris_bds; common(g.common, 12, 0, BDS_URA[(int)V("accuracy")], 3 * 3600, V("health")); v.push_back({"valid", (double)g.common.valid, 1, 0}); v.push_back({"tgd1", g.tgd1, V("tgd1") * 1e-10, F}); v.push_back({"tgd2", g.tgd2, V("tgd2") * 1e-10, F});
    kepler(g, P(-6), P(-31), P(-33), P(-50), P(-66), V("iode"), V("iodc"), D);
  } else {
    auto &g = e.m.ephemeris_glo; static const int FIT[] = {70, 40, 55, 70}; bool bad = V("Bn") || V("ln3") || (k == K1020B && V("ln5")); common(g.common, 3, 0, GLO_FT[(int)V("FT")], 60 * FIT[(int)V("P1")], bad ? 1 : 0); v.push_back({"valid", (double)g.common.valid, 1, 0});
    int tb = (int)V("tb"); int64_t ref = now.wn * WEEK + now.tow, t = tb * 900 - 3 * 3600 + 18; t += 86400 * fdiv(ref - t + 43200, 86400); if (((ref - t) % 86400 + 86400) % 86400 != 43200) v.push_back({"toe", (double)tm(g.common.toe), (double)t, 0});
    for (int i = 0; i < 3; i++) { v.push_back({"position", g.pos[i], X(fmt("pos[%d]", i)) * P(-11) * 1000, D}); v.push_back({"velocity", g.vel[i], X(fmt("vel[%d]", i)) * P(-20) * 1000, D}); v.push_back({"acceleration", g.acc[i], X(fmt("acc[%d]", i)) * P(-30) * 1000, F}); }
    v.push_back({"gamma", g.gamma, V("gamma") * P(-40), F}); v.push_back({"tau", g.tau, V("tau") * P(-30), F}); v.push_back({"d_tau", g.d_tau, V("dtau") * P(-30), F}); v.push_back({"fcn", (double)g.fcn, V("fcn") + 1, 0}); v.push_back({"iod", (double)g.iod, (double)(tb * 900 & 127), 0});
  }
  for (auto &w : v) CHK(c, std::fabs(w.got - w.want) <= w.rel * std::fabs(w.want), "%s: %s is %.17g, not %.17g", how.c_str(), w.n, w.got, w.want);
}
static std::vector<uint64_t> values(const rtcmref::Field &f, bool th) {
  std::vector<uint64_t> v; if (f.w <= 12) { for (uint64_t i = 0; i < 1ull << f.w; i++) v.push_back(i); return v; }
  uint64_t m = (1ull << f.w) - 1; for (uint64_t x : {0ull, 1ull, 2ull}) { v.push_back(x); v.push_back(m - x); } for (int i = 0; i < f.w; i++) { v.push_back(1ull << i); v.push_back(m ^ 1ull << i); v.push_back((1ull << i) - 1); }
  v.push_back(0x55555555 & m); v.push_back(0xAAAAAAAA & m); if (th) for (uint64_t i = 0; i < 4096; i++) v.push_back(mix(i, (uint64_t)f.w) & m); return v;
}
static const Now NOW = {2100, 200000, true};
static Raw base(int k) { return shape(k).defaults(); }
static void set(int k, Raw &r, const char *n, int64_t v) { for (size_t i = 0; i < shape(k).f.size(); i++) if (shape(k).f[i].name == n) { r[i] = v; return; } abort(); }
// every value of every field of at most 12 bits, corner values of the others
static void fields(Ctx &c) {
  int k = (int)c.choose(NK, "message"); auto &s = shape(k); size_t i = c.choose((uint32_t)s.f.size(), "field"); if (s.f[i].fixed) return; auto v = values(s.f[i], c.thorough);
  uint32_t n = (uint32_t)v.size(), from = 0; if (n > 64) { uint32_t parts = (n + 63) / 64; from = 64 * c.choose(parts, "part"); if (n > from + 64) n = from + 64; }
  for (uint32_t j = from; j < n; j++) { Raw r = base(k); r[i] = Shape::trim(s.f[i], v[j]); check(c, k, r, NOW, fmt("%s with %s=%lld", s.name.c_str(), s.f[i].name.c_str(), (long long)r[i])); }
}
// every field at one of its extremes together with every other field at one of its extremes
static void pairs(Ctx &c) {
  int k = (int)c.choose(NK, "message"); auto &s = shape(k); size_t i = c.choose((uint32_t)s.f.size(), "field"), j = c.choose((uint32_t)s.f.size(), "other field"); if (s.f[i].fixed || s.f[j].fixed || i >= j) return;
  for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) { Raw r = base(k); auto ext = [](const rtcmref::Field &f, int x) { uint64_t m = (1ull << f.w) - 1; return Shape::trim(f, x == 0 ? 0 : x == 1 ? m : x == 2 ? 1ull << (f.w - 1) : m >> 1); }; r[i] = ext(s.f[i], a); r[j] = ext(s.f[j], b);
    check(c, k, r, NOW, fmt("%s with %s=%lld, %s=%lld", s.name.c_str(), s.f[i].name.c_str(), (long long)r[i], s.f[j].name.c_str(), (long long)r[j])); }
}
// issue of data and curve fit, all values of both issues
static void issues(Ctx &c) {
  int k = c.choose(2, "message") ? K1044 : K1019; int iodc = (int)c.choose(1024, "iodc"), fit = (int)c.choose(2, "fit"); for (int iode : {iodc & 255, (iodc & 255) ^ 1, (iodc & 255) ^ 128, iodc >> 2, 0, 255}) { Raw r = base(k); set(k, r, "iodc", iodc); set(k, r, "iode", iode); set(k, r, "fit", fit); check(c, k, r, NOW, fmt("%s iodc %d iode %d fit %d", shape(k).name.c_str(), iodc, iode, fit)); }
}
// times of ephemeris and clock against the converter's time, near every week boundary
static void times(Ctx &c) {
  static const int64_t T[] = {0, 1, 13, 14, 15, 7200, 86400, 86418, 172800, 302399, 302400, 302401, 432000, 597600, 604784, 604799}; static const int W[] = {2099, 2100, 2047, 2048, 2171, 2172};
  Now now = {W[c.choose(6, "week")], T[c.choose(16, "time of week")], true}; int k = (int)c.choose(NK, "message"); if (c.choose(2, "known")) now.known = false;
  int64_t u = k == K1019 || k == K1044 ? 16 : k == K1042 ? 8 : 60; std::vector<int64_t> tv; for (int64_t t : std::initializer_list<int64_t>{0, 1, 2, 120, 7200 / u, 302400 / u, 302400 / u + 1, 302400 / u - 1, 597600 / u, 604800 / u - 2, 604800 / u - 1, 604800 / u, 604800 / u + 1}) tv.push_back(t);
  bool glo = k == K1020A || k == K1020B; if (glo) { for (int tb = 0; tb < 96; tb++) { Raw r = base(k); set(k, r, "tb", tb); check(c, k, r, now, fmt("1020 of interval %d at %d/%lld%s", tb, now.wn, (long long)now.tow, now.known ? "" : " (unknown)")); } return; }
  int64_t off = k == K1042 ? 1356 : k == K1019 || k == K1044 ? 0 : 1024, mod = k == K1042 ? 8192 : k == K1019 || k == K1044 ? 1024 : 4096;
  for (int64_t toe : tv) for (int64_t toc : tv) for (int dw : {-1, 0, 1}) { if (dw && toe != tv[0] && toe != tv[9] && toe != tv[5]) continue; int64_t w = ((now.wn + dw - off) % mod + mod) % mod; Raw r = base(k); set(k, r, "week", w); set(k, r, "toe", toe); set(k, r, "toc", toc);
    check(c, k, r, now, fmt("%s week %lld toe %lld toc %lld at %d/%lld%s", shape(k).name.c_str(), (long long)w, (long long)(toe * u), (long long)(toc * u), now.wn, (long long)now.tow, now.known ? "" : " (unknown)")); }
}
// every week number
static void weeks(Ctx &c) {
  int k = (int[]){K1019, K1042, K1044, K1045, K1046}[c.choose(5, "message")]; Now now = NOW; now.known = c.choose(2, "known"); uint32_t part = c.choose(64, "part"); int n = k == K1042 ? 8192 : k == K1019 || k == K1044 ? 1024 : 4096;
  for (int w = (int)part * n / 64; w < (int)(part + 1) * n / 64; w++) { Raw r = base(k); set(k, r, "week", w); check(c, k, r, now, fmt("%s of week %d%s", shape(k).name.c_str(), w, now.known ? "" : " (time unknown)")); }
}
// bytes without which the message lacks a quantity SBP needs (the rest of a 1020 is optional or reserved)
static size_t needed(int k) { size_t n = 0; for (auto &f : shape(k).f) { n += (size_t)f.w; if (f.name == (k == K1020A ? "FT" : k == K1020B ? "ln5" : "")) break; } return (n + 7) / 8; }
// messages in sequence do not disturb one another
static void sequence(Ctx &c) {
  int a = (int)c.choose(NK, "first"), b = (int)c.choose(NK, "second"); R2S x, y; x.know(2100, 200000); y.know(2100, 200000); Raw ra = base(a), rb = base(b); set(a, ra, "sat", 9); if (c.choose(2, "same satellite")) set(b, rb, "sat", 9);
  Bytes pa = shape(a).bytes(ra), pb = shape(b).bytes(rb); uint32_t cut = c.choose(3, "damage"); if (cut == 1) pa.resize(pa.size() / 2); if (cut == 2) pa.resize(needed(a) - 1); x.payload(pa); size_t na = x.out.size(); CHK(c, na == (cut ? 0u : 1u), "%s cut %u: %zu messages", shape(a).name.c_str(), cut, na); x.payload(pb); y.payload(pb); c.step(2); c.traced();
  CHK(c, x.out.size() == na + 1 && y.out.size() == 1, "%s after %s: %zu messages", shape(b).name.c_str(), shape(a).name.c_str(), x.out.size() - na); if (x.out.size() == na + 1 && y.out.size() == 1) CHK(c, show(x.out[na]) == show(y.out[0]), "%s after %s: %s, alone %s", shape(b).name.c_str(), shape(a).name.c_str(), show(x.out[na]).c_str(), show(y.out[0]).c_str());
  c.state(mix((uint64_t)a, (uint64_t)b));
}
// messages of every shorter length
static void truncated(Ctx &c) {
  int k = (int)c.choose(NK, "message"); Bytes p = shape(k).bytes(base(k)); for (size_t n = 2; n < needed(k); n++) { R2S x; x.know(2100, 200000); x.payload(Bytes(p.begin(), p.begin() + (long)n)); c.step(); CHK(c, x.out.empty(), "%s cut to %zu bytes: %zu messages", shape(k).name.c_str(), n, x.out.size()); } c.traced(); c.state((uint64_t)k);
}
int main(int argc, char **argv) {
  all_constellations(); Spec s; s.property = "C18"; s.rule = "every ephemeris message x every field x every value (corner values above 12 bits), pairs of extremes, all issues, all weeks, ephemeris and clock times x converter times around week boundaries, sequences and truncations; every SBP field compared with its own computation from the RTCM scale factors";
  s.assumptions = {"satellite numbers outside the constellation, reserved GLONASS channels and intervals, and BeiDou times beyond a week are not judged", "ties at exactly half a week or half a day are not judged"};
  s.scenarios = {{"fields", fields}, {"issues", issues}, {"times", times}, {"weeks", weeks}, {"sequence", sequence}, {"truncated", truncated}, {"pairs", pairs, 1, 1, true}};
  return run(argc, argv, s);
}
