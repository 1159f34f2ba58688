// C30: NMEA sentences are well formed and say what the SBP messages said
#include "nmearef.hpp"
using namespace mc; using namespace nm;
// an epoch after another through one converter; every sentence is judged
struct Run {
  Ctx &c; int way; unsigned kinds; N n; uint32_t k = 1; double last = -1, cmin = 0.1f, cupd = 0.1f; const char *how;
  Run(Ctx &ctx, int w, unsigned ks, const char *h) : c(ctx), way(w), kinds(ks & (w >= 2 ? (unsigned)(w == 3 ? FUSABLE : ALL) : (unsigned)ALL)), n(mode_of(w), kinds), how(h) {}
  void go(World &w) {
    w.tow = 1000 * k++; n.out.clear(); n.epoch(w, way); Ref r(w, way >= 2); r.cog_min = cmin; r.cog_update = cupd; r.last_cog = last; c.step(); c.traced(1); unsigned judge = kinds; std::vector<std::string> out;
    if (way == 2) { judge &= FUSABLE; for (auto &l : n.out) { S s; if (parse(l, s).empty()) { int q = kind_of(s.head); if (q >= 0 && !(FUSABLE >> q & 1)) continue; } out.push_back(l); } }
    std::string e = r.epoch(way == 2 ? out : n.out, judge); if (!e.empty()) c.check(false, "%s: %s", how, e.c_str());
    // a course is kept from the last epoch fast enough to have one
    double v = r.mps(); if (kinds & (1 << RMC | 1 << VTG | 1 << PUBX)) { if (v > cupd + 1e-5) last = r.vel_ok() ? std::fmod(std::atan2((double)w.ve, (double)w.vn) * 180 / M_PI + 360, 360) : -1; else if (v > cupd - 1e-5) last = -1; }
  }
};
enum { POS = 1 << GGA | 1 << RMC | 1 << GLL | 1 << PUBX, TIME = 1 << GGA | 1 << RMC | 1 << GLL | 1 << ZDA | 1 << PUBX, VEL = 1 << RMC | 1 << VTG | 1 << PUBX };
static std::vector<Sat> sats(int code, int first, int n) { std::vector<Sat> v; for (int i = 0; i < n; i++) v.push_back({code, first + i}); return v; }
static void some(World &w) { w.used = sats(0, 3, 5); for (auto s : sats(14, 7, 4)) w.used.push_back(s); }
// ------------------------------------------------------------------ single fields
static void positions(Ctx &c) {                             // around every degree and minute, of both angles
  int axis = c.choose(2, "angle"), deg = c.choose(axis ? 181 : 91, "degrees"), way = c.choose(2, "way"); c.leaf(); if (!axis) deg += 0; Run r(c, way ? 3 : 0, POS, "positions"); World w; some(w); int step = c.thorough ? 1 : 20;
  static const double eps[] = {-1e-7, -2e-8, -1.1e-8, -1e-8, -9e-9, -6e-9, -5.1e-9, -5e-9, -4.9e-9, -1e-9, -1e-12, 0, 1e-12, 1e-9, 4.9e-9, 5e-9, 5.1e-9, 6e-9, 1e-8, 2e-8, 1e-7, 0.00833};
  for (int m = 0; m < 60; m += m == 1 || m == 58 ? 1 : step == 1 ? 1 : m == 0 ? 1 : m == 59 ? 1 : m + step > 58 ? 58 - m : step) for (double e : eps) for (int s : {1, -1}) { double v = s * (deg + m / 60.0 + e); if (std::fabs(v) > (axis ? 180 : 90)) continue; if (axis) w.lon = v; else w.lat = v; r.go(w); }
  c.state(mix((uint64_t)axis, (uint64_t)deg));
}
static void times(Ctx &c) {                                 // ends of every second, minute, hour, day, month and year
  static const int years[] = {1980, 1999, 2000, 2020, 2023, 2024, 2100, 2400, 9999, 65534}; int y = years[c.choose(10, "year")], mo = 1 + c.choose(12, "month"), way = c.choose(2, "way"); c.leaf(); Run r(c, way ? 2 : 1, TIME, "times"); World w; some(w); w.year = y; w.month = mo;
  static const uint32_t ns[] = {0, 1, 4999999, 5000000, 5000001, 15000000, 984999999, 985000000, 989999999, 994999999, 995000000, 995000001, 999999999};
  for (int d : {1, 9, mdays(y, mo) - 1, mdays(y, mo)}) for (int h : {0, 9, 22, 23}) for (int mi : {0, 58, 59}) for (int s : {0, 58, 59}) for (uint32_t n : ns) { w.day = d; w.hour = h; w.min = mi; w.sec = s; w.ns = n; r.go(w); }
  c.state(mix((uint64_t)y, (uint64_t)mo));
}
static void fractions(Ctx &c) {                             // around every hundredth of a second
  int k = c.choose(200, "half hundredths"), last = c.choose(2, "last second"); c.leaf(); Run r(c, 0, TIME, "fractions"); World w; some(w); if (last) { w.year = 2023; w.month = 12; w.day = 31; w.hour = 23; w.min = 59; w.sec = 59; }
  for (int d = -60; d <= 60; d++) for (int f : {1, 1000}) { long n = k * 5000000L + d * f; if (n < 0) continue; w.ns = (uint32_t)n; r.go(w); } for (int s = 0; s < 60; s++) { w.sec = s; w.ns = (uint32_t)k * 5000000u; r.go(w); }
  c.state((uint64_t)k);
}
static void calendar(Ctx &c) {                              // the last instant of every day of four centuries
  int y = 1980 + c.choose(c.thorough ? 440 : 130, "year"); c.leaf(); Run r(c, 0, 1 << RMC | 1 << ZDA, "calendar"); World w; some(w); w.year = y; w.hour = 23; w.min = 59; w.sec = 59;
  for (int m = 1; m <= 12; m++) for (int d = 1; d <= mdays(y, m); d++) for (uint32_t n : {994999999u, 995000001u}) { w.month = m; w.day = d; w.ns = n; r.go(w); } c.state((uint64_t)y);
}
static void hours(Ctx &c) { int h = c.choose(24, "hour"), m = c.choose(60, "minute"); c.leaf(); Run r(c, 0, 1 << GGA | 1 << ZDA, "hours"); World w; some(w); w.hour = h; w.min = m; for (int s = 0; s < 60; s++) for (uint32_t n : {0u, 500000000u, 999999999u}) { w.sec = s; w.ns = n; r.go(w); } c.state((uint64_t)(h * 60 + m)); }
static void modes(Ctx &c) {                                 // all combinations of the kinds of fix
  int posf = c.choose(256, "position flags"), way = c.choose(4, "way"); c.leaf(); Run r(c, way, ALL, "modes"); World w; some(w); w.view = {{{0, 5}, 50, 40}}; w.track = {{{0, 5}, 120}}; w.posf = posf; if (way >= 2) w.mage = 33;
  for (int v : {0, 1, 2, 3, 8, 9}) for (int u : {0, 1, 2, 8, 9}) for (int d : {0, 1, 6, 8}) for (int o : {0, 1, 2, 8}) { w.velf = v; w.utcf = u; w.dopf = d; w.insf = o; w.age = v + 20; r.go(w); }
  c.state(mix((uint64_t)posf, (uint64_t)way));
}
static void nowhere(Ctx &c) {                               // positions that mean nothing where there is no fix
  static const double v[] = {0, -0.0, NAN, INFINITY, -INFINITY, 65535.5, 65536, 70000, -70000, 1e10, -1e300, 1e308, 359.999999999, 180.5}; int a = c.choose(14, "latitude"), b = c.choose(14, "longitude"), h = c.choose(14, "height"), way = c.choose(4, "way"); c.leaf(); Run r(c, way, ALL, "no fix");
  for (int f : {0, 7, 8, 15, 0xF8, 0xFF}) { World w; some(w); w.posf = f; w.lat = v[a]; w.lon = v[b]; w.height = v[h]; w.cnn = (float)v[b]; w.cne = (float)v[h]; w.cee = (float)v[a]; w.cdd = -1; r.go(w); }
}
static void flags(Ctx &c) { int f = c.choose(5, "which flags"), way = c.choose(4, "way"), mode = c.choose(7, "mode"); c.leaf(); Run r(c, way, ALL, "flags"); for (int v = 0; v < 256; v++) { World w; some(w); w.posf = mode; (f == 0 ? w.velf : f == 1 ? w.utcf : f == 2 ? w.dopf : f == 3 ? w.insf : w.hdgf) = v; r.go(w); } c.state(mix((uint64_t)(f * 4 + way), (uint64_t)mode)); }
static void courses(Ctx &c) {                               // around every printed course
  static const double speeds[] = {1000, 30000, 1e6, 1e9, 2.1e9}; double R = speeds[c.choose(5, "speed")]; int block = c.choose(36, "ten degrees"); c.leaf(); Run r(c, block % 2 ? 0 : 3, VEL, "courses"); World w; some(w); int near = c.thorough ? 3 : 1;
  for (int i = 0; i < 100; i++) { double a = (block * 10 + i * 0.1 + 0.05) * M_PI / 180; int vn = (int)std::lround(R * std::cos(a)), ve = (int)std::lround(R * std::sin(a)); for (int x = -near; x <= near; x++) for (int y = -near; y <= near; y++) { w.vn = vn + x; w.ve = ve + y; r.go(w); } }
  c.state(mix((uint64_t)R, (uint64_t)block));
}
static void slow(Ctx &c) {                                  // every velocity of up to a quarter of a metre per second
  int vn = c.choose(501, "north") - 250; c.leaf(); Run r(c, vn & 1 ? 0 : 3, VEL, "slow"); World w; some(w); w.vn = vn; for (int ve = -250; ve <= 250; ve += c.thorough ? 1 : 7) { w.ve = ve; r.go(w); } c.state((uint64_t)vn);
}
static void velocities(Ctx &c) {
  static const int v[] = {0, 1, -1, 4, 5, 6, 49, 50, 51, 99, 100, 101, 499, 500, 501, 999, 1000, 1001, 27777, 27778, 51444, 99999, 100000, 999994, 999995, 999996, 1000000, -5, -100, -1000, -999995, 123456789, -123456789, INT32_MAX, INT32_MIN, INT32_MAX - 1, INT32_MIN + 1}; const int n = sizeof v / sizeof *v;
  int a = c.choose(n, "north"), b = c.choose(n, "east"); c.leaf(); Run r(c, (a + b) % 4, VEL, "velocities"); World w; some(w); w.vn = v[a]; w.ve = v[b]; for (int d : v) { w.vd = d; r.go(w); } c.state((uint64_t)(a * n + b));
}
static void standing(Ctx &c) {                              // histories of moving and standing; all settings of the two thresholds
  int len = c.thorough ? 6 : 4, set = c.choose(5, "thresholds"), way = c.choose(4, "way"); Run r(c, way, VEL, "standing"); static const float T[5][2] = {{0.1f, 0.1f}, {0.f, 1.f}, {0.05f, 5.f}, {2.f, 0.5f}, {0.f, 0.f}};
  if (set) { r.cmin = T[set][0]; r.cupd = T[set][1]; sbp2nmea_cog_threshold_set(r.n.st.get(), T[set][0]); sbp2nmea_cog_stationary_threshold_set(r.n.st.get(), T[set][1]); }
  static const int V[8][3] = {{5000, 0, 1}, {3000, 4000, 1}, {-700000, -20000, 1}, {700, -300, 1}, {150, 0, 2}, {-60, 25, 1}, {0, 0, 1}, {0, 0, 0}}; int ops[7]; for (int i = 0; i < len; i++) ops[i] = c.choose(8, "velocity"); c.leaf(); World w; some(w);
  for (int i = 0; i < len; i++) { w.vn = V[ops[i]][0]; w.ve = V[ops[i]][1]; w.velf = V[ops[i]][2]; r.go(w); } c.state(mix((uint64_t)set, (uint64_t)(r.last * 100)));
}
static void headings(Ctx &c) { int block = c.choose(361, "block"), way = c.choose(2, "way"); c.leaf(); Run r(c, way, 1 << HDT, "headings"); World w; for (int i = 0; i < 1000; i++) { int h = block * 1000 + i; if (h > 360000) break; w.heading = (uint32_t)h; r.go(w); } c.state((uint64_t)block); }
static void yaws(Ctx &c) {                                  // around every printed heading
  int block = c.choose(380, "block") - 190, way = c.choose(2, "way"); c.leaf(); Run r(c, way ? 3 : 0, 1 << THS, "yaws"); World w; for (int i = 0; i < 100; i++) for (int d : {-1, 0, 1, 2500}) { w.yaw = block * 1000000 + i * 10000 + 5000 + d; w.posf = 1 + i % 6; r.go(w); }
  if (block == 0) for (int base : {0, 180000000, -180000000, 360000000, -360000000, 720000000, 2147483647, -2147483647}) for (int d = -6000; d <= 6000; d += base == 0 ? 1 : 100) { long y = (long)base + d; if (y > INT32_MAX || y < INT32_MIN) continue; w.yaw = (int)y; r.go(w); } c.state((uint64_t)(block + 1000));
}
static void dilutions(Ctx &c) { int hi = c.choose(256, "high byte"), way = c.choose(4, "way"); c.leaf(); Run r(c, way, 1 << GGA | 1 << GSA | 1 << PUBX, "dilutions"); World w; some(w); for (int lo = 0; lo < 256; lo++) { int v = hi << 8 | lo; w.hdop = v; w.vdop = v ^ 0x0155; w.pdop = v ^ 0x02AA; w.tdop = v ^ 0x5033; w.mhdop = v ^ 0x0F00; w.mvdop = v ^ 0x0077; r.go(w); } c.state(mix((uint64_t)hi, (uint64_t)way)); }
static void ages(Ctx &c) { int hi = c.choose(256, "high byte"), way = c.choose(4, "way"), mode = c.choose(7, "mode"); c.leaf(); Run r(c, way, 1 << GGA | 1 << PUBX, "ages"); World w; some(w); w.posf = mode; for (int lo = 0; lo < 256; lo += mode >= 2 && mode <= 4 && (c.thorough || mode == 4) ? 1 : 15) { int v = hi << 8 | lo; w.age = v == 0xFFFF ? 0 : v; w.mage = v == 0xFFFF ? 0 : v ^ 0x0180; if (w.mage == 0xFFFF) w.mage = 1; r.go(w); } c.state(mix((uint64_t)(hi * 4 + way), (uint64_t)mode)); }
static void stations(Ctx &c) { int hi = c.choose(256, "high byte"), mode = 2 + c.choose(3, "mode"); c.leaf(); Run r(c, 0, 1 << GGA, "stations"); World w; some(w); w.posf = mode; for (int lo = 0; lo < 256; lo++) { w.base = hi << 8 | lo; r.go(w); } c.state((uint64_t)(hi * 8 + mode)); }
static void heights(Ctx &c) {                               // and numbers of satellites
  static const double base[] = {0, 0.005, 0.01, 9.995, 99.995, 1000, 8848.86, 9999.99, 18287, 100000, -0.005, -10, -9999.99}; double b = base[c.choose(13, "height")]; int mode = c.choose(7, "mode"), way = c.choose(4, "way"); c.leaf(); Run r(c, way, 1 << GGA | 1 << PUBX, "heights"); World w; some(w); w.posf = mode;
  for (int i = -40; i <= 40; i++) { w.height = b + i * 0.0011; w.nsats = (i * 7 + 300) % 256; r.go(w); } for (int n = 0; n < 256; n++) { w.nsats = n; r.go(w); } c.state(mix((uint64_t)(b * 1000), (uint64_t)(mode * 4 + way)));
}
static void widest(Ctx &c) {                                // the longest values everywhere at once
  int way = c.choose(4, "way"), mode = c.choose(7, "mode"), size = c.choose(6, "size"); c.leaf(); Run r(c, way, ALL, "widest"); World w; for (int code : {0, 3, 14, 12}) for (auto s : sats(code, 1, 14)) w.used.push_back(s); for (auto s : sats(0, 20, 13)) w.view.push_back({s, 179, 90}); for (auto &v : w.view) w.track.push_back({v.s, 255});
  w.posf = mode; double h[] = {1.5, 999.99, 18000.55, -9999.99, 100000.25, 1e7}; float cv[] = {1.f, 1e4f, 1e8f, 1e10f, 1e12f, 1e12f}; int v[] = {1000, 300000, -515000, 1000000000, INT32_MIN, INT32_MIN};
  w.lat = -89.99999999; w.lon = -179.99999999; w.height = h[size]; w.cnn = w.cee = w.cdd = cv[size]; w.cne = 0; w.vn = -v[size] - 1; w.ve = v[size]; w.vd = v[size]; w.hdop = w.vdop = w.pdop = w.tdop = w.mhdop = w.mvdop = 65535; w.age = w.mage = 65534; w.base = 1023; w.nsats = 255; w.year = size == 5 ? 65535 : 9999; w.month = 12; w.day = 30; r.go(w); r.go(w);
}
static const double COV[] = {0, 1e-8, 1e-6, 1e-4, 0.01, 0.25, 0.2500001, 1, 2, 3.7, 100, 10000, 1e6, 1e9, 1e12};
static void covariances(Ctx &c) {
  const int n = sizeof COV / sizeof *COV; int a = c.choose(n, "north"), b = c.choose(n, "east"), way = c.choose(4, "way"); c.leaf(); Run r(c, way, 1 << GST | 1 << PUBX, "covariances"); World w; some(w); w.posf = 1 + (a + b) % 6; w.cnn = (float)COV[a]; w.cee = (float)COV[b]; double m = std::sqrt((double)w.cnn * w.cee);
  for (double rho : {-1.0, -0.9999999, -0.99, -0.5, -0.1, -1e-3, -1e-7, 0.0, 1e-7, 1e-3, 0.1, 0.5, 0.99, 0.9999999, 1.0}) for (double d : {0.0, 1e-6, 1.0, 2.25, 1e12}) { w.cne = (float)(rho * m); if ((double)w.cne * w.cne > (double)w.cnn * w.cee * (1 + 1e-6)) continue; w.cdd = (float)d; r.go(w); }
  c.state((uint64_t)(a * n + b));
}
static void ellipses(Ctx &c) {                              // error ellipses of all orientations and shapes
  int o = c.choose(180, "degrees"), shape = c.choose(8, "shape"); c.leaf(); Run r(c, shape & 1 ? 0 : 3, 1 << GST, "ellipses"); World w; some(w); static const double S[8][2] = {{1, 1}, {1, 0.999}, {2, 1}, {1, 0.01}, {0.01, 0.001}, {5, 0}, {1000, 3}, {0.0123, 0.0077}};
  for (int t = 0; t < (c.thorough ? 100 : 20); t++) { double a = (o - 90 + t / (c.thorough ? 100. : 20.)) * M_PI / 180, M = S[shape][0] * S[shape][0], m = S[shape][1] * S[shape][1], cs = std::cos(a), sn = std::sin(a); w.cnn = (float)(M * cs * cs + m * sn * sn); w.cee = (float)(M * sn * sn + m * cs * cs); w.cne = (float)((M - m) * cs * sn); r.go(w); } c.state((uint64_t)(o * 8 + shape));
}
static const int CODES[] = {0, 1, 7, 2, 3, 4, 12, 13, 14, 15, 20, 21, 31, 35, 36};
static int first_of(int code) { switch (code) { case 2: return 120; case 31: case 35: case 36: return 193; } return 1; }
static int last_of(int code) { switch (code) { case 2: return 151; case 3: case 4: return 28; case 12: case 13: return 64; case 14: case 15: case 20: case 21: return 36; case 31: case 35: case 36: return 202; } return 32; }
static void talkers(Ctx &c) {                               // which constellations are in use
  int set = c.choose(1 << 6, "constellations"), way = c.choose(4, "way"), mode = c.choose(7, "mode"); c.leaf(); static const int code[6] = {0, 2, 3, 14, 12, 31}; Run r(c, way, 1 << GSA | 1 << GST, "talkers");
  for (int n = 1; n <= 3; n++) { World w; w.posf = mode; for (int k = 5; k >= 0; k--) if (set >> k & 1) for (auto s : sats(code[k], first_of(code[k]) + k, n)) w.used.push_back(s); r.go(w); } c.state((uint64_t)(set * 4 + way));
}
static void in_use(Ctx &c) {                                // numbers of satellites of each constellation
  int gp = c.choose(15, "GPS"), gl = c.choose(15, "GLONASS"), ga = c.choose(15, "Galileo"), way = c.choose(2, "way"); c.leaf(); Run r(c, way, 1 << GSA | 1 << GST, "in use");
  for (int gb = 0; gb < 15; gb++) { World w; auto add = [&](int code, int n) { for (auto s : sats(code, 9, n)) w.used.push_back(s); }; add(0, gp); add(3, gl); add(14, ga); add(12, gb); r.go(w); } c.state((uint64_t)((gp * 15 + gl) * 15 + ga));
}
static void order(Ctx &c) {                                 // satellites in any order, by any signals
  World w; int len = c.thorough ? 6 : 5; static const Sat S_[8] = {{0, 17}, {7, 17}, {0, 3}, {2, 131}, {31, 194}, {3, 17}, {14, 17}, {12, 17}}; for (int i = 0; i < len; i++) { int k = c.choose(9, "satellite"); if (k < 8) w.used.push_back(S_[k]); } Run r(c, 0, 1 << GSA | 1 << GST, "order"); r.go(w); c.state(hash_bytes((const uint8_t *)w.used.data(), w.used.size() * sizeof(Sat)));
}
static void identities(Ctx &c) {                            // every satellite by every signal, in use and in view
  int code = CODES[c.choose(15, "signal")], other = CODES[c.choose(15, "other signal")]; c.leaf(); Run r(c, code % 2, 1 << GSA | 1 << GSV | 1 << GST, "identities");
  for (int s = first_of(code); s <= last_of(code); s++) for (int t : {first_of(other), first_of(other) + s % 5, last_of(other)}) { World w; w.used = {{code, s}, {other, t}}; w.view = {{{code, s}, s % 181, s % 91}, {{other, t}, 7, 8}}; w.track = {{{other, t}, 99}, {{code, s}, 166}}; r.go(w); } c.state((uint64_t)(code * 64 + other));
}
static void views(Ctx &c) {                                 // every direction
  int az = c.choose(181, "azimuth"); c.leaf(); Run r(c, 0, 1 << GSV, "views"); World w; for (int el = -90; el <= 90; el++) { w.view = {{{el & 1 ? 0 : 14, 7}, az, el}, {{3, 9}, 180 - az, -el}}; w.track = {{{0, 7}, (az + el + 300) % 256}}; r.go(w); } c.state((uint64_t)az);
}
static void strengths(Ctx &c) { int n = c.choose(256, "strength"), code = CODES[c.choose(15, "signal")]; Run r(c, 1, 1 << GSV, "strengths"); World w; int s = first_of(code); for (int i = 0; i < 3; i++) w.view.push_back({{code, s + i}, 10 * i, 20 * i}); w.track = {{{code, s + 1}, n}, {{code, s + 1}, 255 - n}, {{code == 0 ? 14 : 0, s + 2}, n}, {{code, s}, n ^ 85}}; r.go(w); c.state((uint64_t)(n * 64 + code)); }
static void crowds(Ctx &c) {                                // numbers of satellites in view
  int gp = c.choose(33, "GPS"), gl = c.choose(29, "GLONASS"); c.leaf(); Run r(c, 0, 1 << GSV, "crowds"); for (int ga = 0; gp + gl + ga <= 63 && ga <= 36; ga += c.thorough ? 1 : 3) for (int turn = 0; turn < 2; turn++) { World w; auto add = [&](int code, int n) { for (auto s : sats(code, 1, n)) w.view.push_back({s, s.sat * 5 % 181, s.sat * 2 % 91}); }; add(14, ga); add(0, gp); add(3, gl); int left = 63 - gp - gl - ga; if (turn) add(12, left); std::vector<AzEl> m; for (size_t i = 0, n = w.view.size(); i < n; i++) m.push_back(w.view[(i * 17 + 5) % n]); if (turn && w.view.size() % 17) w.view = m; if (gp & 1) for (int i = 0; i < 48; i++) w.track.push_back({{i & 1 ? 0 : 14, 70 + i}, i}); for (size_t i = 0; i < w.view.size() && w.track.size() < 85; i += 2) w.track.push_back({w.view[i].s, (int)i * 3}); r.go(w); }
  c.state((uint64_t)(gp * 64 + gl));
}
static void matching(Ctx &c) {                              // which signal strength belongs to which satellite
  World w; static const Sat S_[9] = {{0, 7}, {7, 7}, {14, 7}, {3, 7}, {12, 7}, {0, 8}, {2, 120}, {31, 193}, {36, 193}}; w.view = {{S_[0], 1, 2}, {S_[3], 3, 4}, {S_[2], 5, 6}, {S_[7], 7, 8}, {S_[4], 9, 10}, {S_[6], 11, 12}}; int n = c.thorough ? 5 : 4; for (int i = 0; i < n; i++) { int k = c.choose(10, "tracked"); if (k < 9) w.track.push_back({S_[k], 60 + 8 * i}); } Run r(c, 0, 1 << GSV, "matching"); r.go(w);
}
static void all_sentences(Ctx &c) {                         // two fields away from the usual at once, all sentences
  World w; some(w); w.view = {{{0, 5}, 50, 40}}; w.track = {{{0, 5}, 120}}; int way = c.choose(4, "way"); int a = c.dev(5, "latitude"), b = c.dev(4, "longitude"), t = c.dev(6, "time"), p = c.dev(7, "mode"), v = c.dev(5, "velocity"), vf = c.dev(3, "velocity flags"), h = c.dev(4, "height"), d = c.dev(4, "dilution"), cv = c.dev(5, "covariance"), u = c.dev(4, "in use"), uf = c.dev(3, "time flags"), hd = c.dev(4, "heading"), y = c.dev(4, "yaw"), inf = c.dev(3, "orientation flags"), df = c.dev(3, "dilution flags");
  static const double la[] = {45.5, -0.0000000049, 89.9999999999, -59.99999999, 0}, lo[] = {9.25, -179.999999999, 179.99999999, -0.000000001}, he[] = {120.25, -99.995, 99999.995, 0}; w.lat = la[a]; w.lon = lo[b]; w.height = he[h]; static const int tm_[6][4] = {{12, 34, 56, 780000000}, {23, 59, 59, 995000001}, {0, 0, 0, 0}, {9, 59, 59, 999999999}, {22, 58, 59, 996000000}, {11, 5, 7, 4999999}}; w.hour = tm_[t][0]; w.min = tm_[t][1]; w.sec = tm_[t][2]; w.ns = (uint32_t)tm_[t][3]; if (t == 1) { w.month = 12; w.day = 31; }
  static const int md[] = {1, 0, 2, 3, 4, 5, 6}; w.posf = md[p]; static const int ve[5][2] = {{3000, 4000}, {0, 0}, {100000, -50}, {-30, 40}, {-1, -2000000}}; w.vn = ve[v][0]; w.ve = ve[v][1]; static const int f3[] = {1, 0, 2}; w.velf = f3[vf]; w.utcf = f3[uf]; w.insf = f3[inf]; w.dopf = f3[df]; static const int dp[] = {90, 0, 994, 65535}; w.hdop = dp[d]; w.mhdop = dp[(d + 1) % 4]; static const float cs[5][3] = {{1, 0, 2}, {0, 0, 0}, {4, 0, 4}, {4, -1, 3}, {1e6f, 3, 1e-6f}}; w.cnn = cs[cv][0]; w.cne = cs[cv][1]; w.cee = cs[cv][2]; if (u == 1) w.used.clear(); if (u == 2) w.used = sats(3, 1, 14); if (u == 3) for (auto s : sats(12, 30, 13)) w.used.push_back(s);
  static const uint32_t hg[] = {123456, 0, 359994, 359996}; w.heading = hg[hd]; static const int yw[] = {98765432, -1, 180000000, -179999999}; w.yaw = yw[y]; Run r(c, way, ALL, "all sentences"); r.go(w); c.state(hash_str(r.n.out.empty() ? "" : r.n.out[0]));
}
int main(int argc, char **argv) {
  Spec s; s.property = "C30";
  s.rule = "all sentences of whole epochs given to the converter in each of four ways (GNSS asked for, best of both without and with fused solutions, fused asked for), compared field by field with values computed from the SBP messages: positions around every degree and minute, times around every hundredth, second, minute, hour, day, month and year end, all flag bytes and combinations of fix kinds, courses around every tenth of a degree at five speeds, every slow velocity, moving/standing histories of 4 (6) with five threshold settings, every heading, yaw around every hundredth, every dilution, age and station, heights, satellite counts, covariance pairs by correlation, ellipses of every orientation, all satellites by all signals, lists of 0 to 14 per constellation, all views, deviations of two (three) fields at once";
  s.assumptions = {"negative or undefined covariances, age 65535 and UTC fields outside their ranges are not judged", "a value on a rounding tie may go either way", "course exactly at a threshold, and courses kept from an invalid velocity, are not judged", "which twelve of more satellites of a constellation are listed is free"};
  s.scenarios = {{"positions", positions}, {"times", times}, {"fractions", fractions}, {"calendar", calendar}, {"hours", hours}, {"modes", modes}, {"no-fix", nowhere}, {"flags", flags}, {"courses", courses}, {"slow", slow}, {"velocities", velocities}, {"standing", standing}, {"headings", headings}, {"yaws", yaws}, {"dilutions", dilutions}, {"ages", ages}, {"stations", stations}, {"heights", heights}, {"widest", widest}, {"covariances", covariances}, {"ellipses", ellipses}, {"talkers", talkers}, {"in-use", in_use}, {"order", order}, {"identities", identities}, {"views", views}, {"strengths", strengths}, {"crowds", crowds}, {"matching", matching}, {"all-sentences", all_sentences, 2, 3}};
  return run(argc, argv, s);
}
