// NMEA sentences: what the SBP messages of an epoch should make of them, written from the NMEA 0183 / SBP descriptions.
#pragma once
#include <cmath>
#include <map>
#include <memory>
#include "mc.hpp"
extern "C" {
#include <gnss-converters/nmea.h>
#include <gnss-converters/sbp_nmea.h>
#include <swiftnav/geoid_model.h>
}
namespace nm {
using mc::fmt;
enum Kind { GGA, RMC, VTG, HDT, GLL, ZDA, GSA, GST, GSV, PUBX, THS, KINDS };
inline const char *name(int k) { static const char *n[] = {"GGA", "RMC", "VTG", "HDT", "GLL", "ZDA", "GSA", "GST", "GSV", "PUBX", "THS"}; return n[k]; }
struct Sat { int code, sat; };
struct AzEl { Sat s; int az, el; };                        // az in units of two degrees
struct Cn0 { Sat s; int cn0; };                            // in quarters of dB-Hz
struct World {
  double lat = 45.5, lon = 9.25, height = 120.25; float cnn = 1.f, cne = 0.f, cee = 2.f, cdd = 3.f; int nsats = 12, posf = 1;
  int vn = 3000, ve = 4000, vd = -500, velf = 1;
  int year = 2021, month = 6, day = 15, hour = 12, min = 34, sec = 56, utcf = 1; uint32_t ns = 780000000;
  int pdop = 180, hdop = 90, vdop = 150, tdop = 110, dopf = 1, age = 15;
  int mhdop = 80, mvdop = 140, mage = 25;                  // of the solution's own description (fused solutions)
  uint32_t heading = 123456; int hdgf = 4; int yaw = 98765432, insf = 1;
  std::vector<Sat> used; std::vector<AzEl> view; std::vector<Cn0> track; int base = 0;
  uint32_t tow = 1000; int wn = 2150;
};
// ------------------------------------------------------------------ the converter
struct N {
  std::unique_ptr<sbp2nmea_t> st; std::vector<std::string> out; sbp_msg_t m;
  static void cb(char *s, void *ctx) { ((N *)ctx)->out.push_back(s); }
  N(int mode, unsigned kinds = (1u << KINDS) - 1, int rate = 1, float hz = 1.f) { static std::vector<std::unique_ptr<sbp2nmea_t>> &p = pool(); if (p.empty()) st.reset(new sbp2nmea_t); else { st = std::move(p.back()); p.pop_back(); } memset(st.get(), 0xA5, sizeof(sbp2nmea_t)); sbp2nmea_init(st.get(), (sbp2nmea_mode_t)mode, &N::cb, this); sbp2nmea_soln_freq_set(st.get(), hz); for (int k = 0; k < KINDS; k++) if (kinds >> k & 1) sbp2nmea_rate_set(st.get(), rate, (sbp2nmea_nmea_id_t)k); }
  ~N() { pool().push_back(std::move(st)); }
  N(const N &) = delete;
  static std::vector<std::unique_ptr<sbp2nmea_t>> &pool() { static std::vector<std::unique_ptr<sbp2nmea_t>> p; return p; }
  void give(sbp2nmea_sbp_id_t id) { sbp2nmea(st.get(), &m, id); }
  void clear() { memset(&m, 0, sizeof m); }
  void utc(const World &w, bool g) { auto &u = m.utc_time; u.flags = (u8)w.utcf; u.tow = w.tow; u.year = (u16)w.year; u.month = (u8)w.month; u.day = (u8)w.day; u.hours = (u8)w.hour; u.minutes = (u8)w.min; u.seconds = (u8)w.sec; u.ns = w.ns; give(g ? SBP2NMEA_SBP_UTC_TIME_GNSS : SBP2NMEA_SBP_UTC_TIME); }
  void gps(const World &w, bool g) { auto &u = m.gps_time; u.tow = w.tow; u.wn = (u16)w.wn; u.ns_residual = 0; u.flags = 1; give(g ? SBP2NMEA_SBP_GPS_TIME_GNSS : SBP2NMEA_SBP_GPS_TIME); }
  void pos(const World &w, bool g) { auto &p = m.pos_llh_cov; p.tow = w.tow; p.lat = w.lat; p.lon = w.lon; p.height = w.height; p.cov_n_n = w.cnn; p.cov_n_e = w.cne; p.cov_n_d = 0; p.cov_e_e = w.cee; p.cov_e_d = 0; p.cov_d_d = w.cdd; p.n_sats = (u8)w.nsats; p.flags = (u8)w.posf; give(g ? SBP2NMEA_SBP_POS_LLH_COV_GNSS : SBP2NMEA_SBP_POS_LLH_COV); }
  void vel(const World &w, bool g) { auto &v = m.vel_ned; v.tow = w.tow; v.n = w.vn; v.e = w.ve; v.d = w.vd; v.h_accuracy = v.v_accuracy = 1; v.n_sats = (u8)w.nsats; v.flags = (u8)w.velf; give(g ? SBP2NMEA_SBP_VEL_NED_GNSS : SBP2NMEA_SBP_VEL_NED); }
  void dops(const World &w) { auto &d = m.dops; d.tow = w.tow; d.gdop = 1; d.pdop = (u16)w.pdop; d.tdop = (u16)w.tdop; d.hdop = (u16)w.hdop; d.vdop = (u16)w.vdop; d.flags = (u8)w.dopf; give(SBP2NMEA_SBP_DOPS); }
  void age(const World &w) { m.age_corrections.tow = w.tow; m.age_corrections.age = (u16)w.age; give(SBP2NMEA_SBP_AGE_CORR); }
  void hdg(const World &w) { auto &h = m.baseline_heading; h.tow = w.tow; h.heading = w.heading; h.n_sats = 8; h.flags = (u8)w.hdgf; give(SBP2NMEA_SBP_HDG); }
  void euler(const World &w) { auto &o = m.orient_euler; memset(&o, 0, sizeof o); o.tow = w.tow; o.yaw = w.yaw; o.flags = (u8)w.insf; give(SBP2NMEA_SBP_ORIENT_EULER); }
  void view(const World &w) { auto &a = m.sv_az_el; a.n_azel = (u8)w.view.size(); for (size_t i = 0; i < w.view.size(); i++) { a.azel[i].sid.sat = (u8)w.view[i].s.sat; a.azel[i].sid.code = (u8)w.view[i].s.code; a.azel[i].az = (u8)w.view[i].az; a.azel[i].el = (s8)w.view[i].el; } give(SBP2NMEA_SBP_SV_AZ_EL); }
  void track(const World &w) { auto &a = m.measurement_state; a.n_states = (u8)w.track.size(); for (size_t i = 0; i < w.track.size(); i++) { a.states[i].mesid.sat = (u8)w.track[i].s.sat; a.states[i].mesid.code = (u8)w.track[i].s.code; a.states[i].cn0 = (u8)w.track[i].cn0; } give(SBP2NMEA_SBP_MEASUREMENT_STATE); }
  void group() { memset(&m.group_meta, 0, sizeof m.group_meta); m.group_meta.flags = 2; give(SBP2NMEA_SBP_GROUP_META); }
  void meta(const World &w) { auto &s = m.soln_meta; memset(&s, 0, sizeof s); s.tow = w.tow; s.hdop = (u16)w.mhdop; s.vdop = (u16)w.mvdop; s.pdop = (u16)w.pdop; s.age_corrections = (u16)w.mage; give(SBP2NMEA_SBP_SOLN_META); }
  void obs(uint32_t tow, int wn, int total, int count, const Sat *s, size_t n) { sbp_msg_obs_t o; memset(&o, 0, sizeof o); o.header.t.tow = tow; o.header.t.wn = (u16)wn; o.header.n_obs = (u8)(total << 4 | count); o.n_obs = (u8)n; for (size_t i = 0; i < n; i++) { o.obs[i].sid.sat = (u8)s[i].sat; o.obs[i].sid.code = (u8)s[i].code; o.obs[i].flags = 0x0F; } sbp2nmea_obs(st.get(), &o); }
  void all_obs(const World &w) { size_t n = w.used.size(), t = n ? (n + 13) / 14 : 1; for (size_t i = 0; i < t; i++) obs(w.tow, w.wn, (int)t, (int)i, w.used.data() + 14 * i, n - 14 * i < 14 ? n - 14 * i : 14); }
  // a whole epoch; way 0: only GNSS asked for, 1: best of both, GNSS only comes, 2: best of both, a fused group comes, 3: only fused asked for
  void epoch(const World &w, int way) {
    sbp2nmea_base_id_set(st.get(), (u16)w.base); clear(); bool fused = way >= 2;
    if (!fused) { bool g = way == 1; view(w); track(w); all_obs(w); gps(w, g); utc(w, g); hdg(w); euler(w); dops(w); age(w); vel(w, g); pos(w, g); }
    else { World o = w; o.vn = 1; o.ve = 1; o.lat = -1; o.lon = -2; o.height = 1; o.nsats = 3; o.posf = 1; o.min = (o.min + 1) % 60; o.cnn = 50; all_obs(w); dops(o); age(o); hdg(w);
      group(); gps(w, false); utc(w, false); pos(w, false); vel(w, false); euler(w); meta(w); }
  }
};
inline int mode_of(int way) { return way == 0 ? SBP2NMEA_MODE_GNSS : way == 3 ? SBP2NMEA_MODE_FUSED : SBP2NMEA_MODE_BEST; }
// ------------------------------------------------------------------ sentences
struct S { std::string head; std::vector<std::string> f; };
inline std::string parse(const std::string &s, S &o) {
  size_t n = s.size(); if (n < 8 || s[0] != '$' || s.compare(n - 2, 2, "\r\n") || s[n - 5] != '*') return "does not start with $ or end in *hh and line end";
  unsigned x = 0; for (size_t i = 1; i < n - 5; i++) { if (s[i] < 0x20 || s[i] > 0x7E || s[i] == '*' || s[i] == '$') return "holds reserved characters"; x ^= (unsigned char)s[i]; }
  if (s.substr(n - 4, 2) != fmt("%02X", x)) return fmt("checksum should be %02X", x);
  std::string b = s.substr(1, n - 6), w; std::vector<std::string> v; for (char c : b) if (c == ',') { v.push_back(w); w.clear(); } else w += c; v.push_back(w); o.head = v[0]; o.f.assign(v.begin() + 1, v.end()); return "";
}
inline int kind_of(const std::string &head) { if (head == "PUBX") return PUBX; if (head.size() == 5) for (int k = 0; k < KINDS; k++) if (k != PUBX && !head.compare(2, 3, name(k))) return k; return -1; }
inline bool digits(const std::string &s, size_t a, size_t b) { for (size_t i = a; i < b; i++) if (i >= s.size() || s[i] < '0' || s[i] > '9') return false; return true; }
// a decimal number with d decimals within half a unit (and eps) of v
inline bool num(const std::string &s, double v, int d, double eps = 1e-9) {
  size_t i = 0; if (i < s.size() && s[i] == '-') i++; size_t a = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') i++; if (i == a) return false;
  if (d) { if (i >= s.size() || s[i] != '.') return false; if (!digits(s, i + 1, i + 1 + (size_t)d) || s.size() != i + 1 + (size_t)d) return false; } else if (i != s.size()) return false;
  return std::fabs(atof(s.c_str()) - v) <= 0.5 * std::pow(10, -d) + eps;
}
inline bool whole(const std::string &s, long v, int width) { return s == fmt("%0*ld", width, v); }
inline int mdays(int y, int m) { static const int n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return n[m - 1] + (m == 2 && (y % 4 == 0 && (y % 100 || y % 400 == 0))); }
struct Clock { int y, mo, d, h, mi, s, cs; };
inline Clock clock_of(const World &w, bool up) { Clock c = {w.year, w.month, w.day, w.hour, w.min, w.sec, (int)((w.ns + (up ? 5000000u : 4999999u)) / 10000000u)}; if (c.cs >= 100) { c.cs = 0; if (++c.s >= 60) { c.s = 0; if (++c.mi >= 60) { c.mi = 0; if (++c.h >= 24) { c.h = 0; if (++c.d > mdays(c.y, c.mo)) { c.d = 1; if (++c.mo > 12) { c.mo = 1; c.y++; } } } } } } return c; }
struct Ref {
  const World &w; bool fused; double cog_min = 0.1f, cog_update = 0.1f; double last_cog = -1;   // last_cog: course kept while standing, -1: not judged
  Ref(const World &world, bool f) : w(world), fused(f) {}
  int mode() const { return w.posf & 7; }
  bool has_time() const { return (w.utcf & 7) != 0; }
  bool time_ok(const std::string &s, Clock *used = nullptr) const {
    if (!has_time()) return s.empty(); for (int up = 1; up >= 0; up--) { Clock c = clock_of(w, up); if (s == fmt("%02d%02d%02d.%02d", c.h, c.mi, c.s, c.cs)) { if (used) *used = c; return true; } } return false;
  }
  bool angle_ok(const std::string &s, const std::string &dir, double v, int wid, char pos, char neg) const {
    if (s.size() != (size_t)wid + 10 || !digits(s, 0, (size_t)wid + 2) || s[(size_t)wid + 2] != '.' || !digits(s, (size_t)wid + 3, s.size())) return false;
    double deg = atof(s.substr(0, (size_t)wid).c_str()), min = atof(s.substr((size_t)wid).c_str()); if (min >= 60) return false; double got = deg + min / 60;
    if (dir.size() != 1 || (dir[0] != pos && dir[0] != neg)) return false; if (got > 0 && (dir[0] == neg) != (v < 0)) return false;
    return std::fabs(got - std::fabs(v)) <= 5.01e-9 + 0.501e-7 / 60 + 2e-13;
  }
  std::string position(const S &s, size_t i, bool fix) const {
    if (!fix) { for (size_t k = i; k < i + 4; k++) if (!s.f[k].empty()) return "has a position without a fix"; return ""; }
    if (!angle_ok(s.f[i], s.f[i + 1], w.lat, 2, 'N', 'S')) return fmt("latitude %s %s for %.12f", s.f[i].c_str(), s.f[i + 1].c_str(), w.lat);
    if (!angle_ok(s.f[i + 2], s.f[i + 3], w.lon, 3, 'E', 'W')) return fmt("longitude %s %s for %.12f", s.f[i + 2].c_str(), s.f[i + 3].c_str(), w.lon); return "";
  }
  int quality() const { static const int q[8] = {0, 1, 2, 5, 4, 6, 2, 0}; return q[mode()]; }
  char mode_letter() const { return "NADDDEDN"[mode()]; }
  char status() const { int m = mode(); return m == 0 || m == 7 ? 'V' : 'A'; }
  bool corrected() const { int m = mode(); return m == 2 || m == 3 || m == 4; }
  bool vel_ok() const { return (w.velf & 7) != 0; }
  double mps() const { return std::hypot(w.vn / 1000.0, w.ve / 1000.0); }
  static constexpr double KN = 3600.0 / 1852;
  std::string speeds(const std::string *kn, const std::string *kmh) const {
    if (!vel_ok()) { if ((kn && !kn->empty()) || (kmh && !kmh->empty())) return "has a speed without velocity"; return ""; }
    if (kn && !num(*kn, mps() * KN, 2, mps() * 1e-8 + 1e-6)) return fmt("speed %s knots for %.6f m/s", kn->c_str(), mps());
    if (kmh && !num(*kmh, mps() * 3.6, 2, mps() * 1e-8 + 1e-6)) return fmt("speed %s km/h for %.6f m/s", kmh->c_str(), mps()); return "";
  }
  std::string course(const std::string &s) const {
    double v = mps(), e = 1e-7 + v * 1e-7; if (!vel_ok()) return s.empty() ? "" : "has a course without velocity";
    if (s.empty()) return v > cog_min + e ? fmt("has no course at %.4f m/s", v) : ""; if (v < cog_min - e) return fmt("has a course at %.4f m/s", v);
    if (!num(s, atof(s.c_str()), 1) || atof(s.c_str()) < 0 || atof(s.c_str()) >= 360) return "has an impossible course " + s;
    double c = std::atan2((double)w.ve, (double)w.vn) * 180 / M_PI; auto like = [&](double x) { return std::fabs(std::remainder(atof(s.c_str()) - x, 360)) <= 0.0500001; };
    if (v >= cog_update - e && like(c)) return ""; if (v <= cog_update + e && (last_cog < 0 || like(last_cog))) return ""; return fmt("course %s, expected %.4f", s.c_str(), v >= cog_update ? std::fmod(c + 360, 360) : last_cog);
  }
  std::string dop(const std::string &s, int v) const { return num(s, v / 100.0, 1) ? "" : fmt("dilution %s for %.2f", s.c_str(), v / 100.0); }
  int talker(int code) const {
    switch (code) { case 0: case 1: case 2: case 7: case 31: case 35: case 36: return 0; case 3: case 4: return 1; case 14: case 15: case 20: case 21: return 2; case 12: case 13: return 3; } return -1; }
  static const char *talker_name(int t) { static const char *n[] = {"GP", "GL", "GA", "GB"}; return n[t]; }
  static int id_of(Sat s) { switch (s.code) { case 2: return s.sat - 87; case 3: case 4: return s.sat + 64; case 14: case 15: case 20: case 21: return s.sat + 300; case 12: case 13: return s.sat + 400; } return s.sat; }
  // one sentence of the kinds that come alone
  std::string check(int kind, const S &s) const {
#define BAD(x) do { std::string e_ = (x); if (!e_.empty()) return e_; } while (0)
#define REQ(c, ...) do { if (!(c)) return fmt(__VA_ARGS__); } while (0)
    static const int N_[] = {14, 12, 9, 2, 7, 6, 17, 8, 0, 20, 2}; static const char *H[] = {"GPGGA", "GPRMC", "GPVTG", "GPHDT", "GPGLL", "GPZDA", "", "", "", "PUBX", "GPTHS"}; auto &f = s.f;
    if (N_[kind]) REQ(f.size() == (size_t)N_[kind], "has %zu fields, expected %d", f.size(), N_[kind]); if (*H[kind]) REQ(s.head == H[kind], "is called %s", s.head.c_str()); Clock c; bool fix = mode() != 0 && mode() != 7;
    switch (kind) {
      case GGA: { REQ(time_ok(f[0]), "time %s", f[0].c_str()); BAD(position(s, 1, fix)); REQ(f[5] == fmt("%d", quality()), "quality %s for mode %d", f[5].c_str(), mode());
        REQ(f[9] == "M" && f[11] == "M", "units of height"); if (!fix) { REQ(f[6].empty() && f[7].empty() && f[8].empty() && f[10].empty(), "has data without a fix"); }
        else { REQ(whole(f[6], w.nsats, 2), "satellites %s for %d", f[6].c_str(), w.nsats); if (mode() == 5) REQ(f[7].empty(), "has a dilution when dead reckoning"); else BAD(dop(f[7], fused ? w.mhdop : w.hdop)); double g = get_geoid_offset(w.lat * M_PI / 180, w.lon * M_PI / 180); REQ(num(f[8], w.height - g, 2, 1e-4 + std::fabs(w.height) * 1e-9), "height %s, expected %.3f", f[8].c_str(), w.height - g); REQ(num(f[10], g, 2, 1e-4), "geoid %s, expected %.3f", f[10].c_str(), g); }
        if (corrected()) { int a = fused ? w.mage : w.age; REQ(num(f[12], a * 0.1, 1), "age %s for %d", f[12].c_str(), a); REQ(whole(f[13], w.base & 0x3FF, 4), "station %s for %d", f[13].c_str(), w.base); } else REQ(f[12].empty() && f[13].empty(), "has corrections in mode %d", mode()); return ""; }
      case RMC: { REQ(time_ok(f[0], &c), "time %s", f[0].c_str()); REQ(f[1] == std::string(1, status()), "status %s in mode %d", f[1].c_str(), mode()); BAD(position(s, 2, fix)); BAD(speeds(&f[6], nullptr)); BAD(course(f[7]));
        REQ(f[8] == (has_time() ? fmt("%02d%02d%02d", c.d, c.mo, c.y % 100) : ""), "date %s", f[8].c_str()); REQ(f[9].empty() && f[10].empty(), "magnetic variation"); REQ(f[11] == std::string(1, mode_letter()), "mode %s for %d", f[11].c_str(), mode()); return ""; }
      case VTG: BAD(course(f[0])); REQ(f[1] == "T" && f[2].empty() && f[3] == "M" && f[5] == "N" && f[7] == "K", "fixed fields"); BAD(speeds(&f[4], &f[6])); REQ(f[8] == std::string(1, mode_letter()), "mode %s for %d", f[8].c_str(), mode()); return "";
      case HDT: REQ(f[1] == "T", "fixed fields"); if ((w.hdgf & 7) != 4) REQ(f[0].empty(), "has a heading without a fixed baseline"); else REQ(turn_ok(f[0], w.heading / 1000.0), "heading %s for %.3f", f[0].c_str(), w.heading / 1000.0); return "";
      case GLL: BAD(position(s, 0, fix)); REQ(time_ok(f[4]), "time %s", f[4].c_str()); REQ(f[5] == std::string(1, status()) && f[6] == std::string(1, mode_letter()), "status %s mode %s in mode %d", f[5].c_str(), f[6].c_str(), mode()); return "";
      case ZDA: REQ(time_ok(f[0], &c), "time %s", f[0].c_str()); if (!has_time()) REQ(f[1].empty() && f[2].empty() && f[3].empty(), "has a date without time"); else REQ(whole(f[1], c.d, 2) && whole(f[2], c.mo, 2) && f[3] == fmt("%d", c.y), "date %s %s %s", f[1].c_str(), f[2].c_str(), f[3].c_str()); REQ(f[4].empty() && f[5].empty(), "zone"); return "";
      case GST: { REQ(time_ok(f[0]), "time %s", f[0].c_str()); std::map<int, int> t; for (auto &x : w.used) if (talker(x.code) >= 0) t[talker(x.code)]++; bool empty = t.empty() || !fix; std::string h = empty ? "GP" : t.size() > 1 ? "GN" : talker_name(t.begin()->first); if (!any_talker) REQ(s.head == h + "GST", "is called %s, expected %sGST", s.head.c_str(), h.c_str());
        REQ(f[1].empty(), "residuals"); if (any_talker && f[2].empty()) empty = true; if (empty) { for (size_t i = 2; i < 8; i++) REQ(f[i].empty(), "has accuracies without a fix"); return ""; }
        double nn = w.cnn, ee = w.cee, ne = w.cne, h2 = std::hypot((nn - ee) / 2, ne), maj = std::sqrt((nn + ee) / 2 + h2), mi2 = (nn + ee) / 2 - h2, min = std::sqrt(mi2 > 0 ? mi2 : 0), tol = 2e-6 + maj * 2.5e-4, tmin = 2e-6 + std::sqrt(min * min + 5e-4 * maj * maj) - min;
        REQ(num(f[2], maj, 6, tol), "semi-major axis %s, expected %f", f[2].c_str(), maj); REQ(num(f[3], min, 6, tmin), "semi-minor axis %s, expected %f", f[3].c_str(), min);
        REQ(num(f[4], atof(f[4].c_str()), 1) && std::fabs(atof(f[4].c_str())) < 360.05, "orientation %s", f[4].c_str()); if (h2 > 1e-4 * (nn + ee)) { double o = 0.5 * std::atan2(2 * ne, nn - ee) * 180 / M_PI, d = std::fabs(std::remainder(atof(f[4].c_str()) - o, 180)); REQ(d <= 0.051 + 0.4e-5 * (nn + ee) / h2, "orientation %s, expected %.3f", f[4].c_str(), o); }
        const double v[3] = {std::sqrt(nn), std::sqrt(ee), std::sqrt((double)w.cdd)}; for (size_t i = 0; i < 3; i++) REQ(num(f[5 + i], v[i], 6, 1e-6 + v[i] * 1e-6), "standard deviation %s, expected %f", f[5 + i].c_str(), v[i]); return ""; }
      case PUBX: { REQ(f[0] == "00", "message %s", f[0].c_str()); REQ(time_ok(f[1]), "time %s", f[1].c_str()); BAD(position(s, 2, fix)); if (fix) REQ(num(f[6], w.height, 2, 1e-6 + std::fabs(w.height) * 1e-9), "height %s for %.3f", f[6].c_str(), w.height); else REQ(f[6].empty(), "has a height without a fix");
        static const char *NS[] = {"NF", "G3", "D3", "D3", "D3", "DR", "G3", "NF"}; REQ(f[7] == NS[mode()], "status %s in mode %d", f[7].c_str(), mode()); if (fix) { double h = std::sqrt((double)w.cnn + w.cee), v = std::sqrt((double)w.cdd); REQ(num(f[8], h, 1, 1e-5 * h + 1e-6) && num(f[9], v, 1, 1e-5 * v + 1e-6), "accuracies %s %s, expected %.3f %.3f", f[8].c_str(), f[9].c_str(), h, v); } else REQ(f[8].empty() && f[9].empty(), "has accuracies without a fix");
        BAD(speeds(nullptr, &f[10])); BAD(course(f[11])); if (vel_ok()) REQ(num(f[12], w.vd / 1000.0, 2, 1e-6 + std::fabs(w.vd) * 1e-10), "vertical speed %s for %d", f[12].c_str(), w.vd); else REQ(f[12].empty(), "vertical speed without velocity");
        if (corrected()) { int a = fused ? w.mage : w.age; REQ(num(f[13], a * 0.1, 1), "age %s for %d", f[13].c_str(), a); } else REQ(f[13].empty(), "age in mode %d", mode());
        if (!fix || mode() == 5) REQ(f[14].empty() && f[15].empty() && f[16].empty(), "dilutions in mode %d", mode()); else { BAD(dop(f[14], fused ? w.mhdop : w.hdop)); BAD(dop(f[15], fused ? w.mvdop : w.vdop)); if (fused) REQ(f[16].empty(), "time dilution %s", f[16].c_str()); else BAD(dop(f[16], w.tdop)); }
        REQ(f[17] == fmt("%d", w.nsats) && f[18] == "0" && f[19] == (mode() == 5 ? "1" : "0"), "satellites %s, dead reckoning %s", f[17].c_str(), f[19].c_str()); return ""; }
      case THS: { bool none = !fix || (w.insf & 7) == 0; if (none) REQ(f[0].empty() && f[1] == "V", "%s,%s without a heading", f[0].c_str(), f[1].c_str()); else { REQ(turn_ok(f[0], w.yaw / 1e6), "heading %s for %.6f", f[0].c_str(), w.yaw / 1e6); REQ(f[1] == (mode() == 5 ? "E" : "A"), "status %s in mode %d", f[1].c_str(), mode()); } return ""; }
    }
    return "";
  }
  bool any_talker = false;
  static bool turn_ok(const std::string &s, double deg) { double v = atof(s.c_str()); if (!num(s, v, 2) || v < 0 || v >= 360) return false; return std::fabs(std::remainder(v - deg, 360)) <= 0.00500001; }
  // the group of sentences about the satellites in use
  std::string gsa(const std::vector<S> &v) const {
    std::map<int, std::vector<int>> per; for (auto &x : w.used) { int t = talker(x.code); if (t < 0) continue; auto &l = per[t]; int id = id_of(x); bool dup = false; for (int y : l) dup |= y == id; if (!dup) l.push_back(id); }
    bool fix = (w.dopf & 7) != 0; size_t want = per.empty() ? 1 : per.size(); REQ(v.size() == want, "%zu GSA sentences for %zu constellations", v.size(), per.size()); std::map<int, int> seen;
    for (auto &s : v) { auto &f = s.f; REQ(f.size() == 17, "GSA has %zu fields", f.size()); REQ(f[0] == "A" && f[1] == (fix ? "3" : "1"), "GSA mode %s %s", f[0].c_str(), f[1].c_str()); if (fix) { BAD(dop(f[14], w.pdop)); BAD(dop(f[15], w.hdop)); BAD(dop(f[16], w.vdop)); } else REQ(f[14].empty() && f[15].empty() && f[16].empty(), "GSA dilutions without a fix");
      std::vector<int> ids; for (size_t i = 2; i < 14; i++) if (!f[i].empty()) { REQ(ids.size() == i - 2, "GSA has a gap"); REQ(digits(f[i], 0, f[i].size()) && f[i].size() >= 2, "GSA satellite %s", f[i].c_str()); ids.push_back(atoi(f[i].c_str())); REQ(ids.size() < 2 || ids[ids.size() - 2] < ids.back(), "GSA satellites are not in order"); }
      if (per.empty()) { REQ(s.head == "GPGSA" && ids.empty(), "empty GSA is %s", s.head.c_str()); return ""; }
      int t = -1; for (auto &p : per) { bool in = !ids.empty(); for (int i : ids) { bool has = false; for (int y : p.second) has |= y == i; in &= has; } if (in) t = p.first; }
      REQ(t >= 0, "a GSA sentence lists satellites of no one constellation in use"); REQ(!seen[t]++, "two GSA sentences of %s", talker_name(t)); size_t n = per[t].size() < 12 ? per[t].size() : 12; REQ(ids.size() == n, "%s: %zu satellites listed, %zu in use", talker_name(t), ids.size(), per[t].size());
      if (per[t].size() > 12) {}                           // which twelve is free
      std::string h = per.size() > 1 ? "GN" : talker_name(t); REQ(s.head == h + "GSA", "is called %s, expected %sGSA", s.head.c_str(), h.c_str()); }
    return "";
  }
  // the groups of sentences about the satellites in view
  std::string gsv(const std::vector<S> &v) const {
    std::map<int, std::vector<AzEl>> per; for (auto &x : w.view) if (talker(x.s.code) >= 0) per[talker(x.s.code)].push_back(x);
    if (per.empty()) { REQ(v.size() == 1 && v[0].head == "GPGSV" && v[0].f.size() == 3 && v[0].f[0] == "1" && v[0].f[1] == "1" && atoi(v[0].f[2].c_str()) == 0 && digits(v[0].f[2], 0, v[0].f[2].size()), "empty view"); return ""; }
    size_t total = 0; for (auto &p : per) total += (p.second.size() + 3) / 4; REQ(v.size() == total, "%zu GSV sentences, expected %zu", v.size(), total); std::map<std::string, size_t> at; std::string last;
    for (auto &s : v) { int t = -1; for (auto &p : per) if (s.head == std::string(talker_name(p.first)) + "GSV") t = p.first; REQ(t >= 0, "unexpected %s", s.head.c_str()); auto &l = per[t]; size_t n = (l.size() + 3) / 4, i = at[s.head]++; auto &f = s.f;
      REQ(i == 0 || last == s.head, "GSV sentences of one constellation are not together"); last = s.head; REQ(f.size() >= 3 && f[0] == fmt("%zu", n) && f[1] == fmt("%zu", i + 1) && whole(f[2], (long)l.size(), 2), "GSV says %s of %s, %s satellites; expected %zu of %zu, %zu", f[1].c_str(), f[0].c_str(), f[2].c_str(), i + 1, n, l.size());
      size_t m = l.size() - 4 * i; if (m > 4) m = 4; REQ(f.size() == 3 + 4 * m, "GSV with %zu satellites has %zu fields", m, f.size());
      for (size_t k = 0; k < m; k++) { auto &x = l[4 * i + k]; REQ(whole(f[3 + 4 * k], id_of(x.s), 2), "GSV satellite %s, expected %d", f[3 + 4 * k].c_str(), id_of(x.s)); REQ(whole(f[4 + 4 * k], x.el, 2) && whole(f[5 + 4 * k], x.az * 2 % 360, 3), "GSV elevation %s azimuth %s, expected %d %d", f[4 + 4 * k].c_str(), f[5 + 4 * k].c_str(), x.el, x.az * 2 % 360);
        const Cn0 *c = nullptr; for (auto &y : w.track) if (y.s.sat == x.s.sat && group_of(y.s.code) == group_of(x.s.code)) { c = &y; break; } if (!c) REQ(f[6 + 4 * k].empty(), "GSV signal %s of a satellite that is not tracked", f[6 + 4 * k].c_str()); else REQ(num(f[6 + 4 * k], c->cn0 / 4.0, 0) && f[6 + 4 * k].size() == 2, "GSV signal %s for %.2f", f[6 + 4 * k].c_str(), c->cn0 / 4.0); } }
    return "";
  }
  static int group_of(int code) { switch (code) { case 0: case 1: case 7: return 0; case 2: return 1; case 31: case 35: case 36: return 2; case 3: case 4: return 3; case 14: case 15: case 20: case 21: return 4; case 12: case 13: return 5; } return 99 + code; }
  // all sentences of an epoch
  std::string epoch(const std::vector<std::string> &out, unsigned kinds) const {
    std::vector<std::vector<S>> per(KINDS); for (auto &l : out) { S s; std::string e = parse(l, s); if (!e.empty()) return l.substr(0, l.find('\r')) + ": " + e; int k = kind_of(s.head); if (k < 0 || !(kinds >> k & 1)) return l.substr(0, l.find('\r')) + ": not expected"; per[(size_t)k].push_back(s);
      if (k != GSA && k != GSV) { e = check(k, s); if (!e.empty()) return l.substr(0, l.find('\r')) + ": " + e; } }
    for (int k = 0; k < KINDS; k++) if (kinds >> k & 1) { auto &v = per[(size_t)k]; if (k == GSA) { std::string e = gsa(v); if (!e.empty()) return e; } else if (k == GSV) { std::string e = gsv(v); if (!e.empty()) return e; } else if (v.size() != 1) return fmt("%zu %s sentences in an epoch", v.size(), name(k)); }
    return "";
#undef BAD
#undef REQ
  }
};
enum { FUSABLE = 1 << GGA | 1 << RMC | 1 << VTG | 1 << GLL | 1 << ZDA | 1 << GST | 1 << PUBX | 1 << THS, ALL = (1 << KINDS) - 1 };
}  // namespace nm
