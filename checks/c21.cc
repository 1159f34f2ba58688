// C21: ephemerides, station data, biases, log texts and passed-through messages survive SBP -> RTCM -> SBP
#include <sanitizer/allocator_interface.h>
#include "conv.hpp"
#include "rtcmref.hpp"
#include "s2r.hpp"
extern "C" {
#include <gnss-converters-extra/sbp_conv.h>
int sbp2rtcm_main(int argc, char **argv, const char *help, int (*readfn)(uint8_t *, uint32_t, void *), int (*writefn)(uint8_t *, uint16_t, void *), void *context);
}
#include <unistd.h>
using namespace mc; using rtcmref::Shape; using rtcmref::Raw; using s2r::S2R; using conv::R2S;
enum { GPS, GLO, BDS, FNAV, INAV, NK };
static const Shape &shape(int k) { static std::vector<Shape> v = {rtcmref::m1019(), rtcmref::m1020(false), rtcmref::m1042(), rtcmref::m104x(false), rtcmref::m104x(true)}; return v[(size_t)k]; }
static const int TYPE[] = {SbpMsgEphemerisGps, SbpMsgEphemerisGlo, SbpMsgEphemerisBds, SbpMsgEphemerisGal, SbpMsgEphemerisGal};
static const s2r::Cb CB[] = {sbp2rtcm_sbp_gps_eph_cb, sbp2rtcm_sbp_glo_eph_cb, sbp2rtcm_sbp_bds_eph_cb, sbp2rtcm_sbp_gal_eph_cb, sbp2rtcm_sbp_gal_eph_cb};
static const int NUM[] = {1019, 1020, 1042, 1045, 1046};
static const int64_t WEEK = 604800;
static const double URA[] = {2, 2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 6144};
static const double FT[] = {1, 2, 2.5, 4, 5, 7, 10, 12, 14, 16, 32, 64, 128, 256, 512, 6144};
static float sisa(int i) { return i <= 49 ? (float)i * 0.01f : i <= 74 ? 0.5f + (float)(i - 50) * 0.02f : i <= 99 ? 1.0f + (float)(i - 75) * 0.04f : i <= 125 ? 2.0f + (float)(i - 100) * 0.16f : -1; }
static int64_t unit(int k) { return k == GPS ? 16 : k == BDS ? 8 : k == GLO ? 900 : 60; }
static int index(int k, const char *n) { auto &f = shape(k).f; for (size_t i = 0; i < f.size(); i++) if (f[i].name == n) return (int)i; abort(); }
static int64_t &at(int k, Raw &r, const char *n) { return r[(size_t)index(k, n)]; }
// an SBP ephemeris in SBP bytes; off: part of a unit added to one of the fields
struct Eph { int k; Raw r; int64_t toe, toc; int off_i = -1; double off = 0; double sbp_off = 0;   // sbp_off: the value SBP really carries there, in units of the field
  int code = -1, source = -1, fcn = -1; int64_t toe_tow = -1; };
static Eph usual(int k) { Eph e; e.k = k; e.r = shape(k).defaults(); e.toe = 2100 * WEEK + 194400; if (k == BDS) e.toe += 14; e.toc = e.toe; if (k == GLO) { e.toe = 2100 * WEEK + 2 * 86400 + 45 * 900 - 10800 + 18; for (const char *z : {"almanac health available", "tk", "P2", "P3", "P", "En", "P4", "NT", "M", "NA", "tau_c", "N4", "tau_GPS"}) at(k, e.r, z) = 0; }
  if (k == GPS) at(k, e.r, "iode") = at(k, e.r, "iodc") & 255; return e; }
static Bytes sbp(Eph &e, sbp_msg_t *m = nullptr) {
  int k = e.k; Bytes b; auto &r = e.r; auto raw = [&](const std::string &n) { int i = index(k, n.c_str()); return (double)r[(size_t)i] + (i == e.off_i ? e.off : 0); };
  auto U = [&](uint64_t v, int n) { s2r::put(b, v, n); };
  auto F = [&](const std::string &n, double scale) { float f = (float)(raw(n) * scale); if (index(k, n.c_str()) == e.off_i) e.sbp_off = (double)f / scale; uint32_t u; memcpy(&u, &f, 4); U(u, 4); return f; };
  auto D = [&](const std::string &n, double scale) { double f = raw(n) * scale; if (index(k, n.c_str()) == e.off_i) e.sbp_off = f / scale; uint64_t u; memcpy(&u, &f, 8); U(u, 8); return f; };
  auto P = [](int n) { return std::ldexp(1.0, n); };
  static const int CODE[] = {0, 3, 12, 14, 14}; static const char *ACC[] = {"accuracy", "FT", "accuracy", "accuracy", "accuracy"};
  int acc = (int)at(k, r, ACC[k]); float ura = k == GLO ? (float)FT[acc] : k == GPS ? (float)URA[acc] : k == BDS ? (acc == 15 ? 8192.f : (float)URA[acc]) : sisa(acc);
  int fit; if (k == GPS) { int iodc = (int)at(k, r, "iodc"), f = at(k, r, "fit") ? 6 : 4; if (f == 6) f = iodc >= 240 && iodc <= 247 ? 8 : (iodc >= 248 && iodc <= 255) || iodc == 496 ? 14 : (iodc >= 497 && iodc <= 503) || iodc >= 1021 ? 26 : iodc >= 504 && iodc <= 510 ? 50 : iodc == 511 || (iodc >= 752 && iodc <= 756) ? 74 : iodc == 757 ? 98 : 6; fit = f * 3600; }
  else if (k == GLO) { static const int M[] = {70, 40, 55, 70}; fit = 60 * M[at(k, r, "P1")]; } else fit = (k == BDS ? 3 : 4) * 3600;
  int health = (int)(k == GLO ? at(k, r, "Bn") : at(k, r, "health")), valid = k == GPS ? (at(k, r, "iodc") & 255) == at(k, r, "iode") : 1;
  int code = e.code < 0 ? CODE[k] : e.code; uint32_t tt = (uint32_t)(e.toe_tow >= 0 ? e.toe_tow : e.toe % WEEK);
  U((uint64_t)at(k, r, "sat"), 1); U((uint64_t)code, 1); U(tt, 4); U((uint64_t)(e.toe / WEEK), 2); { uint32_t u; memcpy(&u, &ura, 4); U(u, 4); } U((uint64_t)fit, 4); U((uint64_t)valid, 1); U((uint64_t)health, 1);
#define SETC(g) if (m) { auto &q = m->g.common; q.sid.sat = (uint8_t)at(k, r, "sat"); q.sid.code = (uint8_t)code; q.toe.wn = (uint16_t)(e.toe / WEEK); q.toe.tow = tt; q.ura = ura; q.fit_interval = (uint32_t)fit; q.valid = (uint8_t)valid; q.health_bits = (uint8_t)health; }
  if (k == GLO) {
    SETC(ephemeris_glo) sbp_msg_t unused; auto &g = (m ? m : &unused)->ephemeris_glo;
    g.gamma = F("gamma", P(-40)); g.tau = F("tau", P(-30)); g.d_tau = F("dtau", P(-30)); for (int i = 0; i < 3; i++) g.pos[i] = D(fmt("pos[%d]", i), P(-11) * 1000); for (int i = 0; i < 3; i++) g.vel[i] = D(fmt("vel[%d]", i), P(-20) * 1000); for (int i = 0; i < 3; i++) g.acc[i] = F(fmt("acc[%d]", i), P(-30) * 1000);
    g.fcn = (uint8_t)(e.fcn >= 0 ? e.fcn : at(k, r, "fcn") + 1); U(g.fcn, 1); g.iod = (uint8_t)(at(k, r, "tb") * 900 & 127); U(g.iod, 1); return b;
  }
  sbp_msg_t dummy; sbp_msg_t *o = m ? m : &dummy; auto kep = [&](auto &g, double cr, double cu) {
    g.c_rs = F("crs", cr); g.c_rc = F("crc", cr); g.c_uc = F("cuc", cu); g.c_us = F("cus", cu); g.c_ic = F("cic", cu); g.c_is = F("cis", cu); g.dn = D("dn", P(-43) * M_PI); g.m0 = D("m0", P(-31) * M_PI); g.ecc = D("ecc", P(-33)); g.sqrta = D("sqrta", P(-19)); g.omega0 = D("omega0", P(-31) * M_PI);
    g.omegadot = D("omegadot", P(-43) * M_PI); g.w = D("w", P(-31) * M_PI); g.inc = D("inc", P(-31) * M_PI); g.inc_dot = D("inc_dot", P(-43) * M_PI); };
  auto toc = [&](auto &g) { g.toc.wn = (uint16_t)(e.toc / WEEK); g.toc.tow = (uint32_t)(e.toc % WEEK); U(g.toc.tow, 4); U(g.toc.wn, 2); };
  if (k == GPS) { SETC(ephemeris_gps) auto &g = o->ephemeris_gps; g.tgd = F("tgd", P(-31)); kep(g, P(-5), P(-29)); g.af0 = F("af0", P(-31)); g.af1 = F("af1", P(-43)); g.af2 = F("af2", P(-55)); toc(g); g.iode = (uint8_t)at(k, r, "iode"); g.iodc = (uint16_t)at(k, r, "iodc"); U(g.iode, 1); U(g.iodc, 2); }
  else if (k == BDS) { SETC(ephemeris_bds) auto &g = o->ephemeris_bds; g.tgd1 = F("tgd1", 1e-10); g.tgd2 = F("tgd2", 1e-10); kep(g, P(-6), P(-31)); g.af0 = D("af0", P(-33)); g.af1 = F("af1", P(-50)); g.af2 = F("af2", P(-66)); toc(g); g.iode = (uint8_t)at(k, r, "iode"); g.iodc = (uint16_t)at(k, r, "iodc"); U(g.iode, 1); U(g.iodc, 2); }
  else { SETC(ephemeris_gal) auto &g = o->ephemeris_gal; g.bgd_e1e5a = F("bgd1", P(-32)); if (k == INAV) g.bgd_e1e5b = F("bgd2", P(-32)); else { g.bgd_e1e5b = 0; U(0, 4); } kep(g, P(-5), P(-29)); g.af0 = D("af0", P(-34)); g.af1 = F("af1", P(-46)); g.af2 = F("af2", P(-59)); toc(g); g.iode = g.iodc = (uint16_t)at(k, r, "iod"); U(g.iode, 2); U(g.iodc, 2); g.source = (uint8_t)(e.source >= 0 ? e.source : k == FNAV ? 1 : 0); U(g.source, 1); }
  return b;
}
static Raw fields_of(int k, const Bytes &p) { Raw r; s2r::BitR b(p); for (auto &f : shape(k).f) r.push_back(Shape::trim(f, b.u(f.w))); return r; }
static std::vector<Bytes> one(S2R &s, Eph &e, uint16_t sender = 0x1234) { s.feed(CB[e.k], sender, sbp(e)); return s.take(); }
static std::vector<conv::Emit> back(const std::vector<Bytes> &f, int64_t now, R2S *given = nullptr) { R2S own; R2S &x = given ? *given : own; x.take(); if (now >= 0) x.know((int)(now / WEEK), (double)(now % WEEK)); for (auto &b : f) x.frame(b); return x.take(); }
// SBP -> RTCM: every field; RTCM -> SBP: the same message
static void check(Ctx &c, Eph e, int64_t now, int leap, const std::string &how) {
  int k = e.k; auto &s = shape(k); S2R x; sbp2rtcm_set_leap_second((s8)leap, x.st()); sbp_msg_t m; memset((void *)&m, 0, sizeof m); Bytes b = sbp(e, &m); c.at("%s", how.c_str()); x.feed(CB[k], 0x1234, b); c.step();
  auto f = x.take(); CHK(c, f.size() == 1 && x.empty == 0, "%s: %zu messages", how.c_str(), f.size()); if (f.size() != 1) return;
  Bytes p = s2r::unframe(c, f[0], how.c_str()); if (p.empty()) return; CHK(c, s2r::number(p) == NUM[k] && p.size() == (s.bits() + 7) / 8, "%s: message %d of %zu bytes", how.c_str(), s2r::number(p), p.size()); if (s2r::number(p) != NUM[k] || p.size() != (s.bits() + 7) / 8) return;
  Raw g = fields_of(k, p), w = e.r; int64_t adj = k == BDS ? 14 : 0;
  if (k != GLO) { at(k, w, "toe") = (e.toe - adj) % WEEK / unit(k); at(k, w, "toc") = (e.toc - adj) % WEEK / unit(k); int64_t a = (e.toe - adj) / WEEK, d = (e.toc - adj) / WEEK, sub = k == BDS ? 1356 : k == GPS ? 0 : 1024, mod = k == BDS ? 8192 : k == GPS ? 1024 : 4096; int64_t &wn = at(k, w, "week"); wn = (a - sub) % mod; if (at(k, g, "week") == (d - sub) % mod) wn = (d - sub) % mod; }   // the week of either time will do: both are within hours
  for (size_t i = 0; i < w.size(); i++) { const std::string &n = s.f[i].name; if (n == "L2 code" || n == "L2 data" || n == "almanac health" || n == "ln3" || (n == "P1" && w[i] % 3 == 0 && g[i] % 3 == 0)) continue;
    if ((int)i == e.off_i) CHK(c, std::fabs((double)g[i] - e.sbp_off) <= 0.5 + 1e-6 * std::fabs(e.off), "%s: %s is sent as %lld, SBP says %.4f", how.c_str(), n.c_str(), (long long)g[i], e.sbp_off);
    else CHK(c, g[i] == w[i], "%s: %s is sent as %lld, not %lld", how.c_str(), n.c_str(), (long long)g[i], (long long)w[i]); }
  c.state(hash_bytes(p.data(), p.size())); c.traced();
  if (e.off_i >= 0 || (k != GLO && (at(k, e.r, "sat") < 1)) || (k == BDS && at(k, e.r, "sat") <= 5)) return;
  auto o = back(f, now); c.step(); CHK(c, o.size() == 1 && o[0].type == TYPE[k], "%s: %zu messages come back", how.c_str(), o.size()); if (o.size() != 1 || o[0].type != TYPE[k]) return;
  conv::Emit want; want.sender = conv::sender(0); want.type = TYPE[k]; want.m = m; std::string a = conv::show(o[0]), z = conv::show(want); c.traced(); CHK(c, a == z, "%s: comes back as %s, was %s", how.c_str(), a.c_str(), z.c_str());
}
static int max_sat(int k) { return k == GPS ? 32 : k == GLO ? 28 : k == BDS ? 63 : 36; }
static int64_t limit(int k, const std::string &n, int64_t v) {   // keeps a value where the standard defines it
  if (n == "sat") return v < 1 ? 1 : v > max_sat(k) ? max_sat(k) : v; if (n == "fcn") return v > 13 ? 13 : v; if (n == "accuracy" && k >= FNAV && v > 125) return 255; if (n == "tb") return 45; if (n == "P1" && v == 0) return 3; return v;
}
static bool skip(int, const Shape &s, size_t i) { const std::string &n = s.f[i].name; return s.f[i].fixed || n == "week" || n == "toe" || n == "toc" || n == "tb" || n == "L2 code" || n == "L2 data" || n == "almanac health" || n == "almanac health available" || n == "tk" || n == "P2" || n == "P3" || n == "P" || n == "ln3" || n == "En" || n == "P4" || n == "NT" || n == "M" || n == "NA" || n == "tau_c" || n == "N4" || n == "tau_GPS" || n == "ln5" || n == "reserved" || n == "additional"; }
static const int64_t NOW = 2100 * WEEK + 200000;
// every field over every value of up to 12 bits, corner values above; between the units to the nearest one
static void fields(Ctx &c) {
  int k = (int)c.choose(NK, "message"); auto &s = shape(k); size_t i = c.choose((uint32_t)s.f.size(), "field"); if (skip(k, s, i)) return; const auto &f = s.f[i]; std::vector<uint64_t> v; uint64_t m = (1ull << f.w) - 1;
  if (f.w <= 12) for (uint64_t a = 0; a <= m; a++) v.push_back(a); else { for (uint64_t x : {0ull, 1ull, 2ull}) { v.push_back(x); v.push_back(m - x); } for (int q = 0; q < f.w; q++) { v.push_back(1ull << q); v.push_back(m ^ 1ull << q); v.push_back((1ull << q) - 1); } v.push_back(0x55555555 & m); v.push_back(0xAAAAAAAA & m); if (c.thorough) for (uint64_t z = 0; z < 2048; z++) v.push_back(mix(z, (uint64_t)f.w) & m); }
  uint32_t n = (uint32_t)v.size(), from = 0; if (n > 64) { from = 64 * c.choose((n + 63) / 64, "part"); if (n > from + 64) n = from + 64; }
  bool whole = f.name == "sat" || f.name == "accuracy" || f.name == "FT" || f.name == "health" || f.name == "Bn" || f.name == "fcn" || f.name == "fit" || f.name == "P1" || f.name == "iode" || f.name == "iodc" || f.name == "iod";
  for (uint32_t j = from; j < n; j++) { Eph e = usual(k); int64_t x = limit(k, f.name, Shape::trim(f, v[j])); e.r[i] = x; check(c, e, NOW, 18, fmt("%s with %s=%lld", s.name.c_str(), f.name.c_str(), (long long)x));
    if (whole) continue; int64_t hi = f.t == 'u' ? (int64_t)m : (int64_t)(m >> 1), lo = f.t == 'u' ? 0 : f.t == 'm' ? -hi : -hi - 1; for (double d : {-0.45, -0.2, 0.3, 0.45}) { if ((d < 0 && x <= lo) || (d > 0 && x >= hi)) continue; e.off_i = (int)i; e.off = d; check(c, e, NOW, 18, fmt("%s with %s=%lld%+.2f", s.name.c_str(), f.name.c_str(), (long long)x, d)); } }
}
static void pairs(Ctx &c) {
  int k = (int)c.choose(NK, "message"); auto &s = shape(k); size_t i = c.choose((uint32_t)s.f.size(), "field"), j = c.choose((uint32_t)s.f.size(), "other field"); if (i >= j || skip(k, s, i) || skip(k, s, j)) return;
  auto ext = [&](size_t q, int x) { auto &f = s.f[q]; uint64_t m = (1ull << f.w) - 1; return limit(k, f.name, Shape::trim(f, x == 0 ? 0 : x == 1 ? m : x == 2 ? 1ull << (f.w - 1) : m >> 1)); };
  for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) { Eph e = usual(k); e.r[i] = ext(i, a); e.r[j] = ext(j, b); check(c, e, NOW, 18, fmt("%s with %s=%lld, %s=%lld", s.name.c_str(), s.f[i].name.c_str(), (long long)e.r[i], s.f[j].name.c_str(), (long long)e.r[j])); }
}
// satellites, accuracies of every satellite
static void satellites(Ctx &c) {
  int k = (int)c.choose(NK, "message"); int acc = (int)c.choose(16, "accuracy"); for (int sat = 1; sat <= max_sat(k); sat++) { Eph e = usual(k); at(k, e.r, "sat") = sat; if (k == GLO) { at(k, e.r, "FT") = acc; at(k, e.r, "fcn") = sat % 14; } else at(k, e.r, "accuracy") = k >= FNAV ? acc * 8 + (sat & 7) > 125 ? 255 : acc * 8 + (sat & 7) : acc; check(c, e, NOW, 18, fmt("%s of satellite %d accuracy %d", shape(k).name.c_str(), sat, acc)); }
}
// Galileo accuracies between two steps go to the nearer one
static void accuracy(Ctx &c) {
  int i = (int)c.choose(125, "index"), k = c.choose(2, "message") ? INAV : FNAV; for (double d : {0.2, 0.4, 0.6, 0.8}) { Eph e = usual(k); at(k, e.r, "accuracy") = i; Bytes b = sbp(e); float f = (float)(sisa(i) + d * (sisa(i + 1) - sisa(i))); memcpy(&b[8], &f, 4); S2R x; x.feed(CB[k], 1, b); auto v = x.take(); c.step(); c.traced(); CHK(c, v.size() == 1, "accuracy %f: %zu messages", f, v.size()); if (v.size() != 1) return; Raw g = fields_of(k, s2r::unframe(c, v[0], "accuracy")); int got = (int)at(k, g, "accuracy"); CHK(c, got == i + (d > 0.5) || (i == 49 || i == 74 || i == 99 ? got == i || got == i + 1 : false), "accuracy %f is sent as index %d", f, got); }
  c.state((uint64_t)i);
}
// ephemeris and clock times on every side of every boundary of hour, day and week, at different weeks
static void times(Ctx &c) {
  static const int W[] = {2099, 2100, 2047, 2048, 2171, 2172, 1931, 2379, 2380}; static const int64_t T[] = {0, 16, 960, 7200, 43200, 75600, 86400, 302400, 345600, 518400, 597600, 604784, 604740, 604792, 604800 - 900, 75600 + 86400 * 6};
  int64_t wn = W[c.choose(9, "week")]; int k = (int)c.choose(NK, "message"); uint32_t part = c.choose(16, "time");
  if (k == GLO) { for (int tb = (int)part * 6; tb < (int)part * 6 + 6; tb++) for (int d = 0; d < 7; d++) { Eph e = usual(k); at(k, e.r, "tb") = tb; e.toe = wn * WEEK + d * 86400 + tb * 900 - 10800 + 18; for (int64_t dn : {-40000, -1800, 0, 1, 1800, 40000}) check(c, e, e.toe + dn, 18, fmt("1020 of interval %d of day %d week %lld at %+lld", tb, d, (long long)wn, (long long)dn)); } return; }
  int64_t u = unit(k), base = wn * WEEK + T[part] / u * u; for (int64_t de : {-1, 0, 1}) for (int64_t dc : {-120, -2, -1, 0, 1, 2, 120}) for (int64_t dn : {-7200, -1, 0, 1, 7200}) { Eph e = usual(k); e.toe = base + de * u + (k == BDS ? 14 : 0); e.toc = e.toe + dc * u; check(c, e, e.toe + dn, 18, fmt("%s of %lld/%lld clock %lld/%lld at %+lld", shape(k).name.c_str(), (long long)(e.toe / WEEK), (long long)(e.toe % WEEK), (long long)(e.toc / WEEK), (long long)(e.toc % WEEK), (long long)dn)); }
}
// every week of the RTCM cycles that SBP can express
static void weeks(Ctx &c) {
  int k = (int)c.choose(NK, "message"); uint32_t part = c.choose(32, "part"); for (int64_t w = 1931 + (int64_t)part * 128; w < 1931 + (int64_t)(part + 1) * 128; w++) { Eph e = usual(k); e.toe += (w - 2100) * WEEK; e.toc += (w - 2100) * WEEK; if (k == GLO && w > 4000) continue; if (k >= FNAV && w >= 5120) continue; check(c, e, e.toe + 3600, 18, fmt("%s of week %lld", shape(k).name.c_str(), (long long)w)); }
}
static void leaps(Ctx &c) {   // leap seconds valid at other times, and every number for the RTCM field
  int leap = (int)c.choose(28, "leap seconds"); for (int tb = 0; tb < 96; tb++) { Eph e = usual(GLO); at(GLO, e.r, "tb") = tb; int64_t wn = leap == 17 ? 1900 : 2100; e.toe = wn * WEEK + 3 * 86400 + tb * 900 - 10800 + leap;
    if (leap == 17 || leap == 18) { check(c, e, e.toe, leap, fmt("1020 of interval %d, %d leap seconds", tb, leap)); continue; }
    S2R x; sbp2rtcm_set_leap_second((s8)leap, x.st()); auto f = one(x, e); c.step(); c.traced(); CHK(c, f.size() == 1, "%d leap seconds, interval %d: %zu messages", leap, tb, f.size()); if (f.size() == 1) { Raw g = fields_of(GLO, s2r::unframe(c, f[0], "1020")); CHK(c, at(GLO, g, "tb") == tb, "%d leap seconds: interval %lld, not %d", leap, (long long)at(GLO, g, "tb"), tb); } }
  c.state((uint64_t)leap);
}
// messages that are no ephemeris of that kind, have no valid time, or come before the leap seconds are known
static void unusable(Ctx &c) {
  int k = (int)c.choose(NK, "message"); static const char *W[] = {"foreign signal", "source", "time past the week", "leap seconds unknown", "short"}; uint32_t w = c.choose(5, "what");
  Eph e = usual(k); S2R x; if (w != 3) sbp2rtcm_set_leap_second(18, x.st());
  if (w == 0) { for (int code = 0; code < 256; code++) { bool own = code < CODE_COUNT && (k == BDS ? code == CODE_BDS2_B1 || code == CODE_BDS2_B2 : code_to_constellation((code_t)code) == (k == GPS ? CONSTELLATION_GPS : k == GLO ? CONSTELLATION_GLO : CONSTELLATION_GAL)); if (own) continue; e.code = code; c.at("%s of signal %d", shape(k).name.c_str(), code); auto f = one(x, e); c.step(); CHK(c, f.empty(), "%s of signal %d: %zu messages", shape(k).name.c_str(), code, f.size()); } }
  if (w == 1) { if (k < FNAV) return; for (int s = 2; s < 256; s++) { e.source = s; c.at("source %d", s); auto f = one(x, e); c.step(); CHK(c, f.empty(), "Galileo ephemeris of source %d: %zu messages", s, f.size()); } }
  if (w == 2) for (int64_t t : {604800ll, 604801ll, 700000ll, 0x7FFFFFFFll, 0xFFFFFFFFll}) { e.toe_tow = t; c.at("%s at %lld", shape(k).name.c_str(), (long long)t); auto f = one(x, e); c.step(); for (auto &b : f) { Bytes p = s2r::unframe(c, b, "invalid time"); if (p.empty()) continue; if (k == GLO) { Raw g = fields_of(k, p); CHK(c, at(k, g, "Bn") == 1, "1020 of invalid time %lld is sent as healthy", (long long)t); } } }
  if (w == 3) { auto f = one(x, e); c.step(); CHK(c, k == GLO || f.size() == 1, "%s without leap seconds: %zu messages", shape(k).name.c_str(), f.size()); if (k == GLO && !f.empty()) { Raw g = fields_of(k, s2r::unframe(c, f[0], "1020")); CHK(c, at(k, g, "Bn") == 1 && at(k, g, "tb") < 96, "1020 without leap seconds is sent as healthy, interval %lld", (long long)at(k, g, "tb")); } }
  if (w == 4) { Bytes b = sbp(e); for (size_t n = 0; n < b.size(); n++) { x.feed(CB[k], 1, b.data(), n); c.step(); CHK(c, x.frames.empty(), "%s of %zu bytes: %zu messages", shape(k).name.c_str(), n, x.frames.size()); } x.feed(CB[k], 1, b); CHK(c, x.frames.size() == 1, "%s after short ones: %zu messages", shape(k).name.c_str(), x.frames.size()); }
  c.traced(); c.state(mix((uint64_t)k, w)); (void)W;
}
// ---------------------------------------------------------------- station
static Bytes pos_msg(double x, double y, double z) { Bytes b; for (double v : {x, y, z}) { uint64_t u; memcpy(&u, &v, 8); s2r::put(b, u, 8); } return b; }
static std::string text(s2r::BitR &r, int n) { std::string s; while (n--) s += (char)r.u(8); return s; }
static void check_pos(Ctx &c, double x, double y, double z, uint16_t sender, double height, int ant, int rcv, const std::string &how) {
  S2R s; std::string A, R; for (int i = 0; i < ant; i++) A += (char)(33 + i); for (int i = 0; i < rcv; i++) R += (char)(126 - i); bool known = height >= 0 || ant >= 0;
  if (height >= 0) { bool ok = sbp2rtcm_set_ant_height(height, s.st()); CHK(c, ok, "height %f is refused", height); } if (ant >= 0) sbp2rtcm_set_rcv_ant_descriptors(A.c_str(), R.c_str(), s.st());
  Bytes b = pos_msg(x, y, z); c.at("%s", how.c_str()); s.feed(sbp2rtcm_base_pos_ecef_cb, sender, b); auto f = s.take(); c.step(); CHK(c, f.size() == (known ? 3u : 1u) && s.empty == 0, "%s: %zu messages", how.c_str(), f.size()); if (f.empty()) return;
  bool seen[3] = {0, 0, 0}; int64_t want[3] = {std::llround(x * 1e4), std::llround(y * 1e4), std::llround(z * 1e4)};
  for (auto &q : f) {
    Bytes p = s2r::unframe(c, q, how.c_str()); if (p.empty()) return; s2r::BitR r(p); int num = (int)r.u(12), stn = (int)r.u(12); CHK(c, stn == (sender & 4095), "%s: %d of station %d", how.c_str(), num, stn);
    int w = num == 1006 ? 0 : num == 1008 ? 1 : num == 1033 ? 2 : -1; CHK(c, w >= 0 && !seen[w], "%s: message %d", how.c_str(), num); if (w < 0) return; seen[w] = true;
    if (w == 0) { CHK(c, r.u(6) == 0, "%s: realisation year", how.c_str()); r.u(4); for (int i = 0; i < 3; i++) { int64_t v = r.s(38); CHK(c, v == want[i], "%s: coordinate %d is %lld, not %lld", how.c_str(), i, (long long)v, (long long)want[i]); if (i < 2) r.u(2); } int64_t h = (int64_t)r.u(16), wh = height >= 0 ? std::llround(height * 1e4) : 0; CHK(c, h == wh, "%s: height %lld, not %lld", how.c_str(), (long long)h, (long long)wh); CHK(c, r.p == p.size() * 8, "%s: %zu bytes", how.c_str(), p.size()); }
    else { int n = (int)r.u(8); std::string d = text(r, n); CHK(c, d == A, "%s: %d: antenna \"%s\", not \"%s\"", how.c_str(), num, d.c_str(), A.c_str()); CHK(c, r.u(8) == 0, "%s: %d: setup", how.c_str(), num); n = (int)r.u(8); CHK(c, n == 0, "%s: %d: serial number of %d characters", how.c_str(), num, n);
      if (w == 2) { n = (int)r.u(8); d = text(r, n); CHK(c, d == R, "%s: receiver \"%s\", not \"%s\"", how.c_str(), d.c_str(), R.c_str()); CHK(c, r.u(16) == 0, "%s: firmware and serial number", how.c_str()); } CHK(c, r.p == p.size() * 8, "%s: %d: %zu bytes, %zu bits", how.c_str(), num, p.size(), r.p); }
    c.state(hash_bytes(p.data(), p.size()));
  }
  auto o = back(f, -1); c.step(); c.traced(); int np = 0; for (auto &e : o) if (e.type == SbpMsgBasePosEcef) { np++; auto &g = e.m.base_pos_ecef; double got[3] = {g.x, g.y, g.z}; CHK(c, e.sender == conv::sender(sender & 4095), "%s: comes back from %04x", how.c_str(), e.sender); for (int i = 0; i < 3; i++) CHK(c, std::fabs(got[i] - (double)want[i] * 1e-4) < 1e-8, "%s: coordinate %d comes back as %.6f", how.c_str(), i, got[i]); }
  CHK(c, np == 1, "%s: %d positions come back", how.c_str(), np);
}
static void station(Ctx &c) {
  static const double V[] = {0, 0.0001, -0.0001, 1.00004, -1.00004, 0.00026, -0.00026, 6378137.1234, -6378137.1234, 13743895.3471, -13743895.3471, 4500000.00001, -0.5, 1e-9}; uint32_t w = c.choose(4, "what");
  if (w == 0) { double x = V[c.choose(14, "x")], y = V[c.choose(14, "y")]; for (double z : V) check_pos(c, x, y, z, 0x1042, 1.5, 10, 12, fmt("position %.5f %.5f %.5f", x, y, z)); }
  if (w == 1) { uint32_t part = c.choose(64, "part"); for (uint32_t s = part * 1024; s < part * 1024 + 1024; s += c.thorough ? 1 : 7) check_pos(c, 1234567.8912, -2345678.9123, 3456789.1234, (uint16_t)s, -1, -1, -1, fmt("position from sender %04x", s)); }
  if (w == 2) { uint32_t part = c.choose(64, "part"); for (uint32_t h = part * 1024; h < part * 1024 + 1024; h += c.thorough ? 1 : 13) check_pos(c, 1, 2, 3, 77, h / 10000.0, -1, -1, fmt("antenna height %u", h)); }
  if (w == 3) { int a = (int)c.choose(32, "antenna"); for (int r = 0; r < 32; r++) { check_pos(c, 1, 2, 3, 78, -1, a, r, fmt("descriptors of %d and %d characters", a, r)); check_pos(c, 1, 2, 3, 78, 6.5535, a, r, fmt("descriptors of %d and %d characters, height", a, r)); } }
}
// antenna heights that do not fit are refused and leave things as they were; overlong descriptors are cut
static void heights(Ctx &c) {
  static const double H[] = {-1e-9, -0.1, 6.5536, 7, 1e9, 6.5535, 0}; double h = H[c.choose(7, "height")]; bool fits = h >= 0 && h <= 6.5535; S2R s; bool ok = sbp2rtcm_set_ant_height(h, s.st()); CHK(c, ok == fits, "height %g is %s", h, ok ? "accepted" : "refused"); s.feed(sbp2rtcm_base_pos_ecef_cb, 5, pos_msg(1, 2, 3)); auto f = s.take(); c.step(); c.traced(); CHK(c, f.size() == (fits ? 3u : 1u), "after height %g: %zu messages", h, f.size());
  for (int n : {31, 32, 33, 64, 200}) { S2R q; std::string A((size_t)n, 'A'), R((size_t)n, 'R'); c.at("descriptors of %d characters", n); sbp2rtcm_set_rcv_ant_descriptors(A.c_str(), R.c_str(), q.st()); q.feed(sbp2rtcm_base_pos_ecef_cb, 5, pos_msg(1, 2, 3)); auto g = q.take(); c.step(); CHK(c, g.size() == 3, "descriptors of %d characters: %zu messages", n, g.size()); for (auto &b : g) { Bytes p = s2r::unframe(c, b, "descriptors"); if (s2r::number(p) == 1006 || p.empty()) continue; s2r::BitR r(p); r.u(24); int k = (int)r.u(8); std::string d = text(r, k); CHK(c, k <= 31 && k > 0 && d == A.substr(0, (size_t)k), "%d: descriptor of %d characters \"%s\" for one of %d", s2r::number(p), k, d.c_str(), n); } }
  Bytes b = pos_msg(1, 2, 3); S2R t; for (size_t n = 0; n < b.size(); n++) { t.feed(sbp2rtcm_base_pos_ecef_cb, 1, b.data(), n); c.step(); CHK(c, t.frames.empty(), "position of %zu bytes: %zu messages", n, t.frames.size()); } c.state((uint64_t)(h * 10 + 100));
}
// ---------------------------------------------------------------- GLONASS biases
static Bytes bias_msg(int mask, const int *v) { Bytes b; b.push_back((uint8_t)mask); for (int i = 0; i < 4; i++) s2r::put(b, (uint16_t)v[i], 2); return b; }
static void biases(Ctx &c) {
  int mask = (int)c.choose(16, "mask"); uint32_t w = c.choose(5, "what"); static const int V[] = {0, 1, -1, 7, -7, 50, -49, 1234, -32767, 32767, -32768};
  auto test = [&](const int *v, uint16_t sender) {
    int m[4]; for (int i = 0; i < 4; i++) m[i] = mask >> (3 - i) & 1 ? v[i] : 0; std::string how = fmt("biases %d %d %d %d mask %x from %04x", m[0], m[1], m[2], m[3], mask, sender); S2R s; s.feed(sbp2rtcm_glo_biases_cb, sender, bias_msg(mask, m)); auto f = s.take(); c.step(); CHK(c, f.size() == 1, "%s: %zu messages", how.c_str(), f.size()); if (f.size() != 1) return;
    Bytes p = s2r::unframe(c, f[0], how.c_str()); if (p.empty()) return; s2r::BitR r(p); int num = (int)r.u(12), stn = (int)r.u(12); r.u(1); int res = (int)r.u(3), mk = (int)r.u(4); CHK(c, num == 1230 && stn == (sender & 4095) && res == 0 && mk == mask, "%s: %d of station %d mask %x", how.c_str(), num, stn, mk); for (int i = 0; i < 4; i++) if (mask >> (3 - i) & 1) { int64_t g = r.s(16); CHK(c, g == m[i], "%s: bias %d is sent as %lld", how.c_str(), i, (long long)g); } CHK(c, r.p == p.size() * 8, "%s: %zu bytes", how.c_str(), p.size());
    auto o = back(f, NOW); c.step(); c.traced(); CHK(c, o.size() == 1 && o[0].type == SbpMsgGloBiases, "%s: %zu messages come back", how.c_str(), o.size()); if (o.size() != 1 || o[0].type != SbpMsgGloBiases) return; auto &g = o[0].m.glo_biases; int z[4] = {g.l1ca_bias, g.l1p_bias, g.l2ca_bias, g.l2p_bias};
    CHK(c, o[0].sender == conv::sender(sender & 4095) && g.mask == mask, "%s: comes back from %04x with mask %x", how.c_str(), o[0].sender, g.mask); for (int i = 0; i < 4; i++) CHK(c, z[i] == m[i], "%s: bias %d comes back as %d", how.c_str(), i, z[i]); c.state(hash_bytes(p.data(), p.size())); };
  if (w < 4) { for (int x : V) for (int y : V) { int v[4] = {3, -4, 5, -6}; v[w] = x; v[(w + 1) % 4] = y; test(v, 0x1042); } } else if (c.thorough || mask == 15) { uint32_t part = c.choose(16, "part"); for (int x = -32768 + (int)part * 4096; x < -32768 + (int)(part + 1) * 4096; x += c.thorough ? 1 : 5) { int v[4] = {x, -1 - x, x / 2, -x / 3}; test(v, (uint16_t)(x + 32768)); } }
}
// ---------------------------------------------------------------- log texts
static Bytes log_msg(int level, const std::string &t) { Bytes b; b.push_back((uint8_t)level); b.insert(b.end(), t.begin(), t.end()); return b; }
static void texts(Ctx &c) {
  uint32_t kind = c.choose(9, "kind"), part = c.choose(16, "length"); static const char *CH[] = {"a", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80"};
  for (int n = (int)part * 16; n < (int)part * 16 + 16 && n <= 254; n++) for (int lead = 0; lead < 4; lead++) {
    std::string t; if (kind < 4) { t.assign((size_t)lead, 'x'); while ((int)t.size() + (int)strlen(CH[kind]) <= n) t += CH[kind]; while ((int)t.size() < n) t += 'z'; }
    else if (kind < 8) { t.assign((size_t)lead, 'x'); for (int i = (int)kind; (int)t.size() + 4 <= n; i++) t += CH[i % 4]; while ((int)t.size() < n) t += 'z'; if (lead > n) t.resize((size_t)n); } else { for (int i = 0; i < n; i++) t += (char)(1 + (i * 37 + lead * 64) % 127); }
    if ((int)t.size() != n) t.resize((size_t)n); uint16_t sender = (uint16_t)(n * 257 + lead); std::string how = fmt("text of %d bytes, kind %u, lead %d", n, kind, lead); c.at("%s", how.c_str());
    S2R s; s.feed(sbp2rtcm_sbp_log_cb, sender, log_msg((n + lead) % 8, t)); auto f = s.take(); c.step(); if (n == 0) { CHK(c, f.size() <= 1, "empty text: %zu messages", f.size()); continue; } CHK(c, f.size() == 1 && s.empty == 0, "%s: %zu messages", how.c_str(), f.size()); if (f.size() != 1) continue;
    Bytes p = s2r::unframe(c, f[0], how.c_str()); if (p.empty()) return; s2r::BitR r(p); int num = (int)r.u(12), stn = (int)r.u(12); r.u(16 + 17 + 7); int len = (int)r.u(8); std::string g = text(r, len); CHK(c, num == 1029 && stn == (sender & 4095) && g == t && r.p == p.size() * 8, "%s: %d of station %d, %d bytes \"%s\"", how.c_str(), num, stn, len, g.c_str());
    auto o = back(f, -1); c.step(); c.traced(); CHK(c, o.size() == 1 && o[0].type == SbpMsgLog, "%s: %zu messages come back", how.c_str(), o.size()); if (o.size() != 1 || o[0].type != SbpMsgLog) continue;
    std::string want = "RTCM: " + t; if (want.size() > 254) { want.resize(254); size_t q = t.size() > 248 ? 248 : 0, b = q; while (b > 0 && ((uint8_t)t[b] & 0xC0) == 0x80) b--; if (b < q) want.resize(6 + b); }
    std::string got(o[0].m.log.text.data, o[0].m.log.text.encoded_len); CHK(c, got == want && o[0].sender == conv::sender(sender & 4095), "%s: comes back as %zu bytes \"%s\" from %04x, expected %zu", how.c_str(), got.size(), got.c_str(), o[0].sender, want.size()); c.state(hash_str(got));
  }
}
// ---------------------------------------------------------------- messages passed through
struct Pass { int type; s2r::Cb cb; };
static const Pass PASS[] = {{SBP_MSG_OSR, sbp2rtcm_sbp_osr_cb}, {SBP_MSG_SSR_ORBIT_CLOCK, sbp2rtcm_sbp_ssr_orbit_clock_cb}, {SBP_MSG_SSR_PHASE_BIASES, sbp2rtcm_sbp_ssr_phase_biases_cb}, {SBP_MSG_SSR_CODE_BIASES, sbp2rtcm_sbp_ssr_code_biases_cb}, {SBP_MSG_SSR_GRIDDED_CORRECTION_DEP_A, sbp2rtcm_sbp_ssr_gridded_correction_cb}, {SBP_MSG_SSR_GRID_DEFINITION_DEP_A, sbp2rtcm_sbp_ssr_grid_definition_cb}, {SBP_MSG_SSR_STEC_CORRECTION_DEP_A, sbp2rtcm_sbp_ssr_stec_correction_cb}};
static Bytes pass_data(int n, int seed) { Bytes b; for (int i = 0; i < n; i++) b.push_back((uint8_t)(seed == 0 ? 0 : seed == 1 ? 255 : mix((uint64_t)i, (uint64_t)seed * 1000 + (uint64_t)n))); return b; }
static void passed(Ctx &c) {
  auto &q = PASS[c.choose(7, "message")]; int n = (int)c.choose(256, "length"); for (uint32_t i = 0; i < 16; i++) { uint16_t sender = (uint16_t)(i == 0 ? 0 : i == 1 ? 0xFFFF : 1u << i); Bytes d = pass_data(n, (int)i % 4); S2R s; s.feed(q.cb, sender, d); auto f = s.take(); c.step(); CHK(c, f.size() == 1, "%x of %d bytes: %zu messages", q.type, n, f.size()); if (f.size() != 1) return;
    Bytes p = s2r::unframe(c, f[0], "passed"); if (p.empty()) return; CHK(c, s2r::number(p) == 4062, "%x is sent as %d", q.type, s2r::number(p)); auto o = back(f, -1); c.step(); c.traced(); CHK(c, o.size() == 1 && o[0].type == q.type && o[0].sender == sender && o[0].m.raw.n == n && memcmp(o[0].m.raw.raw, d.data(), d.size()) == 0, "%x from %04x of %d bytes comes back as %zu messages%s", q.type, sender, n, o.size(), o.empty() ? "" : (" " + conv::show(o[0])).c_str()); c.state(hash_bytes(p.data(), p.size())); }
}
// ---------------------------------------------------------------- sequences of all kinds
struct Item { int type; s2r::Cb cb; uint16_t sender; Bytes b; };
static const std::vector<Item> &items() {
  static std::vector<Item> v; if (!v.empty()) return v; int bias[4] = {10, -20, 30, -40};
  for (int k = 0; k < NK; k++) { Eph e = usual(k); v.push_back({(int[]){SBP_MSG_EPHEMERIS_GPS, SBP_MSG_EPHEMERIS_GLO, SBP_MSG_EPHEMERIS_BDS, SBP_MSG_EPHEMERIS_GAL, SBP_MSG_EPHEMERIS_GAL}[k], CB[k], 0x1042, sbp(e)}); }
  v.push_back({SBP_MSG_BASE_POS_ECEF, sbp2rtcm_base_pos_ecef_cb, 0x1042, pos_msg(1111111.1111, -2222222.2222, 3333333.3333)}); v.push_back({SBP_MSG_GLO_BIASES, sbp2rtcm_glo_biases_cb, 0x2043, bias_msg(15, bias)}); v.push_back({SBP_MSG_LOG, sbp2rtcm_sbp_log_cb, 0x1042, log_msg(4, "text")});
  for (auto &q : PASS) v.push_back({q.type, q.cb, 0x3044, pass_data(40 + (q.type & 31), 3)});
  std::vector<s2r::O> o; for (int s = 1; s <= 6; s++) o.push_back(s2r::make(s, 0, 2.1e7 + 1e5 * s)); v.push_back({SBP_MSG_OBS, sbp2rtcm_sbp_obs_cb, 0x1042, s2r::obs_msg(200000000, 2100, 1, 0, o)});
  // epochs that need the most room
  std::vector<std::pair<int, int>> all; static const int A[] = {0, 14, 12, 31, 3, 2}, FIRST[] = {1, 1, 1, 193, 1, 120}, N[] = {32, 36, 63, 10, 28, 39}; for (int k = 0; k < 6; k++) for (int i = 0; i < N[k]; i++) all.push_back({FIRST[k] + i, A[k]});
  for (int m = 0; m < 15; m++) { o.clear(); for (size_t i = (size_t)m * 14; i < (size_t)m * 14 + 14 && i < all.size(); i++) o.push_back(s2r::make(all[i].first, all[i].second, 2.1e7 + 1e4 * (double)(i % 90))); v.push_back({SBP_MSG_OBS, sbp2rtcm_sbp_obs_cb, 0x1042, s2r::obs_msg(200001000, 2100, 15, m, o)}); }
  return v;
}
static void sequence(Ctx &c) {   // every message gives what it gives alone, whatever came before it
  auto &v = items(); size_t n = 16; static std::vector<std::vector<Bytes>> alone; auto setup = [](S2R &s) { sbp2rtcm_set_leap_second(18, s.st()); sbp2rtcm_set_rcv_ant_descriptors("ANT", "RCV", s.st()); };
  if (alone.empty()) for (size_t i = 0; i < n; i++) { S2R s; setup(s); s.feed(v[i].cb, v[i].sender, v[i].b); alone.push_back(s.take()); }
  S2R s(0x5A); setup(s); size_t depth = c.thorough ? 4 : 3; R2S x; x.know(2100, 200000.0); uint64_t h = 0; for (size_t d = 0; d < depth; d++) { size_t i = c.choose((uint32_t)n, "message"); s.feed(v[i].cb, v[i].sender, v[i].b); auto f = s.take(); c.step(); c.traced(); CHK(c, f == alone[i], "message %x after others: %zu frames, alone %zu", v[i].type, f.size(), alone[i].size()); h = mix(h, i + 1); }
  c.state(h);
}
// the same through the stream interface, whatever the room of its caller
static void interface(Ctx &c) {
  auto &v = items(); uint32_t w = c.choose(4, "messages"); size_t room = (size_t[]){1 << 16, 1029, 100, 1}[c.choose(4, "room")]; std::vector<size_t> q; if (w == 0) for (size_t i = 0; i < 16; i++) q.push_back(i); if (w == 1) for (size_t i = 16; i-- > 0;) q.push_back(i); if (w == 2) for (size_t i = 16; i < v.size(); i++) q.push_back(i); if (w == 3) for (size_t i = 0; i < v.size(); i++) q.push_back(i);
  S2R s; sbp2rtcm_set_leap_second(18, s.st()); sbp2rtcm_set_rcv_ant_descriptors("NULL                ", "SWFT", s.st()); Bytes want, got; sbp_conv_t k = sbp_conv_new(); CHK(c, k != nullptr, "no converter"); if (!k) return; Bytes buf(room);
  for (size_t i : q) { s.feed(v[i].cb, v[i].sender, v[i].b); Bytes b = v[i].b; size_t n = sbp_conv(k, v[i].sender, (uint16_t)v[i].type, b.data(), b.size(), buf.data(), room); c.step(); CHK(c, n <= room, "%zu bytes in room for %zu", n, room); got.insert(got.end(), buf.begin(), buf.begin() + (long)n); uint8_t none[1] = {0}; for (int g = 0; g < 100000; g++) { n = sbp_conv(k, 0, 0, none, 0, buf.data(), room); if (n == 0) break; got.insert(got.end(), buf.begin(), buf.begin() + (long)n); } }
  for (auto &f : s.take()) want.insert(want.end(), f.begin(), f.end()); c.traced(); CHK(c, got == want, "%zu messages with room for %zu: %zu bytes, expected %zu", q.size(), room, got.size(), want.size()); sbp_conv_delete(k); c.state(mix(w, room));
}
// what a converter holds is given back with it
static void released(Ctx &c) {
  auto &v = items(); size_t n = c.choose(4, "messages"); int seen = 0; size_t first = 0, room = (size_t[]){1 << 12, 100}[c.choose(2, "room")]; Bytes buf(room);
  for (int k = 0; k < 4; k++) { size_t held = __sanitizer_get_current_allocated_bytes(); sbp_conv_t q = sbp_conv_new(); if (!q) { c.fail("new", "no converter"); return; }
    for (size_t i = 0; i < n * 5 && i < v.size(); i++) { Bytes b = v[i].b; (void)sbp_conv(q, v[i].sender, (uint16_t)v[i].type, b.data(), b.size(), buf.data(), room); }
    sbp_conv_delete(q); size_t now = __sanitizer_get_current_allocated_bytes(); c.step(); if (k == 0) first = now; else { CHK(c, now == held, "converter %d given back after %zu messages: %zd bytes remain", k, n * 5, (ssize_t)(now - held)); seen++; } }
  (void)first; c.traced(); c.state(mix(n, (uint64_t)seen));
}
// the program hands every kind of message to its conversion
static std::vector<size_t> plan; static size_t done_; static Bytes program_out; static int program_ctx;
static s8 on_process(sbp_state_t *st, s32 (*rd)(u8 *, u32, void *)) {
  if (done_ < plan.size()) { auto &it = items()[plan[done_++]]; for (int i = 0; i < shim_n_regs; i++) if (shim_regs[i].type == it.type) { Bytes b = it.b; ((s2r::Cb)shim_regs[i].cb)(it.sender, (u8)b.size(), b.data(), (rtcm3_out_state *)shim_regs[i].context); } } else { uint8_t none; rd(&none, 1, st->io_context); while (getchar() != EOF) {} } return 0;
}
static int prog_write(uint8_t *b, uint16_t n, void *ctx) { if (ctx != &program_ctx) return -1; program_out.insert(program_out.end(), b, b + n); return n; }
static int prog_read(uint8_t *, uint32_t, void *) { return 0; }
static void program(Ctx &c) {
  uint32_t i = c.choose(18, "messages"); plan.clear(); if (i < 16) plan = {i}; else for (size_t k = i == 16 ? 0 : 16; k < (i == 16 ? 16u : items().size()); k++) plan.push_back(k);
  done_ = 0; program_out.clear(); shim_on_process = on_process; if (!freopen("/dev/null", "r", stdin)) return; char a0[] = "sbp2rtcm"; char *argv[] = {a0, nullptr}; optind = 1; int rc = sbp2rtcm_main(1, argv, "", prog_read, prog_write, &program_ctx); c.step(); c.traced();
  S2R s; sbp2rtcm_set_leap_second(18, s.st()); Bytes want; for (size_t k : plan) s.feed(items()[k].cb, items()[k].sender, items()[k].b); for (auto &f : s.take()) want.insert(want.end(), f.begin(), f.end()); CHK(c, rc == 0 && done_ == plan.size() && program_out == want, "program on messages %u: code %d, %zu bytes, expected %zu", i, rc, program_out.size(), want.size()); c.state(i);
}
int main(int argc, char **argv) {
  conv::all_constellations(); Spec s; s.property = "C21"; s.rule = "every ephemeris kind x every field x every value (corner values above 12 bits, and values between two units), pairs of extremes, ephemeris and clock times around all boundaries, all weeks; base positions, heights, senders, descriptors of every length; bias masks and values; texts of every length of 1 to 4 byte characters; passed-through messages of every type and length; all message sequences to depth 3 (4); the stream interface, its release and the program: every RTCM field compared with its own computation and the message that comes back with the one sent";
  s.assumptions = {"values the RTCM fields cannot express (out of range parameters, unknown GLONASS channel, fit intervals and source of other constellations) are not judged", "ephemeris and clock time of one message are within hours: its week number may be that of either"};
  s.scenarios = {{"fields", fields}, {"satellites", satellites}, {"accuracy", accuracy}, {"times", times}, {"weeks", weeks}, {"leaps", leaps}, {"unusable", unusable}, {"station", station}, {"heights", heights}, {"biases", biases}, {"texts", texts}, {"passed", passed}, {"sequence", sequence}, {"interface", interface}, {"released", released}, {"program", program}, {"pairs", pairs, 1, 1, true}};
  return run(argc, argv, s);
}
