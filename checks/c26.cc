// C26: u-blox sensor, navigation and SBAS data keep their values and time base
#include <map>
#include <optional>
#include "ubxpipe.hpp"
using namespace mc; using namespace ubxref; using namespace ubxpipe;
typedef long long ll;
static const ll WK = 604800000, W256 = WK * 256;
static ll pmod(ll a, ll b) { a %= b; return a < 0 ? a + b : a; }
// ------------------------------------------------------------------ messages
struct Msg {
  const Shape *s; Raw r;
  Msg(const Shape &sh, unsigned pattern = 0) : s(&sh), r(sh.pattern(pattern)) {}
  int at(const char *n) const { for (size_t i = 0; i < s->f.size(); i++) if (s->f[i].name == n) return (int)i; abort(); }
  Msg &set(const char *n, ll v) { r[(size_t)at(n)] = (uint64_t)v; return *this; }
  ll get(const char *n) const { size_t i = (size_t)at(n); const Field &x = s->f[i]; uint64_t v = r[i]; return (ll)Shape::extended(x, v); }
};
static const Shape S_pvt = nav_pvt(), S_hnr = hnr_pvt(), S_att = nav_att(), S_vel = nav_velecef(), S_status = nav_status();
static const Shape &shaped(int kind, int n, unsigned low = 0) {
  static std::map<std::array<int, 3>, std::unique_ptr<Shape>> m; auto &p = m[{kind, n, (int)low}];
  if (!p) p.reset(new Shape(kind == 0 ? esf_raw(n) : kind == 1 ? esf_meas(n, low) : kind == 2 ? rxm_rawx(n) : kind == 3 ? rxm_sfrbx(n) : nav_sat(n)));
  return *p;
}
struct Item { int type; uint32_t val; uint32_t tag; };
struct SatRow { int gnss, sv, cno, elev, azim; };
// ------------------------------------------------------------------ what is expected of one output message
struct Exp {
  int type; sbp_msg_t m; ll t = 0, mod = 0; double v[6]; uint32_t ticks_alt = 0; bool has_alt = false; ll acc_full = 0;
  Exp(int ty) : type(ty) { memset(&m, 0, sizeof m); for (auto &x : v) x = 0; }
};
struct Want { std::vector<Exp> list; std::vector<std::array<int, 4>> azel; std::vector<std::array<int, 3>> states; };
// ------------------------------------------------------------------ reference: the converter as the interface descriptions have it
struct Ref {
  bool use_hnr = false; int sats = 0, flags = 0, fix = 0; ll last_tow = -1; sbp_msg_orient_euler_t att;
  bool run = false; ll running = 0; uint32_t last = 0; int sent = 0; bool temp_set = false; double temp = 0; bool imu_valid = false; ll imu_t = 0;   // 1/256 ms
  bool obs_valid = false, week_known = false; int obs_wn = 0; double obs_tow = 0;
  bool orun = false; ll orunning = 0; uint32_t olast = 0; struct Wheel { bool seen = false, fresh = false; uint32_t in = 0; uint32_t out = 0; } wheel[4];
  Ref() { memset(&att, 0, sizeof att); }
  static int clamp16(ll v) { return (int)(v > 65535 ? 65535 : v); }
  void pvt(const Msg &q, Want &w) {
    Exp e(SbpMsgPosLlh); auto &p = e.m.pos_llh; int ft = (int)q.get("fix_type"), fl = (int)q.get("flags");
    p.tow = (u32)q.get("i_tow"); p.lat = (double)q.get("lat") / 1e7; p.lon = (double)q.get("lon") / 1e7; p.height = (double)q.get("height") / 1e3;
    p.h_accuracy = (u16)clamp16(q.get("horizontal_accuracy")); p.v_accuracy = (u16)clamp16(q.get("vertical_accuracy")); p.n_sats = (u8)q.get("num_sats");
    int f = 0; static const int carr[4] = {2, 3, 4, 0};
    if (ft == 1) f = 5; else if (ft >= 2 && ft <= 4) f = fl & 2 ? carr[fl >> 6 & 3] : 1;
    if (ft == 1 || ft == 4) f |= 8;
    p.flags = (u8)f; sats = p.n_sats; flags = f; fix = ft; last_tow = p.tow;
    if (!use_hnr) w.list.push_back(e);
  }
  void hnr(const Msg &q, Want &w) {
    Exp e(SbpMsgPosLlh); auto &p = e.m.pos_llh; p.tow = (u32)q.get("i_tow"); p.lat = (double)q.get("lat") / 1e7; p.lon = (double)q.get("lon") / 1e7; p.height = (double)q.get("height") / 1e3;
    p.h_accuracy = (u16)clamp16(q.get("horizontal_accuracy")); p.v_accuracy = (u16)clamp16(q.get("vertical_accuracy")); p.n_sats = (u8)sats; p.flags = (u8)flags;
    last_tow = p.tow; if (!use_hnr) return;
    w.list.push_back(e); Exp o(SbpMsgOrientEuler); o.m.orient_euler = att; o.m.orient_euler.tow = p.tow; o.m.orient_euler.yaw = (s32)(q.get("heading_vehicle") * 10); o.m.orient_euler.yaw_accuracy = (float)((double)q.get("heading_acc") / 1e5);
    w.list.push_back(o);
  }
  void nav_att(const Msg &q, Want &w) {
    Exp e(SbpMsgOrientEuler); auto &p = e.m.orient_euler; p.tow = (u32)q.get("i_tow"); p.roll = (s32)(q.get("roll") * 10); p.pitch = (s32)(q.get("pitch") * 10); p.yaw = (s32)(q.get("heading") * 10);
    p.roll_accuracy = (float)((double)q.get("acc_roll") / 1e5); p.pitch_accuracy = (float)((double)q.get("acc_pitch") / 1e5); p.yaw_accuracy = (float)((double)q.get("acc_heading") / 1e5);
    p.flags = fix == 1 || fix == 4; att = p; if (!use_hnr) w.list.push_back(e);
  }
  void vel(const Msg &q, Want &w) {
    Exp e(SbpMsgVelEcef); auto &p = e.m.vel_ecef; p.tow = (u32)q.get("i_tow"); p.x = (s32)(q.get("ecefVX") * 10); p.y = (s32)(q.get("ecefVY") * 10); p.z = (s32)(q.get("ecefVZ") * 10);
    p.accuracy = (u16)clamp16(q.get("speed_acc") * 10); e.acc_full = q.get("speed_acc"); p.n_sats = (u8)sats; p.flags = fix > 0 ? 13 : 8; w.list.push_back(e);
  }
  void esf_raw(uint32_t msss, const std::vector<Item> &items, Want &w) {
    int count[256] = {0}; double val[6] = {0}; int cur = 0; static const int AX[6] = {14, 13, 5, 16, 17, 18};
    for (auto &it : items) {
      int sv = (int)(it.val & 0xFFFFFF); if (sv & 0x800000) sv -= 1 << 24;
      if (it.type == 12) { temp = sv * 0.01; temp_set = true; continue; }
      int a = -1; for (int k = 0; k < 6; k++) if (AX[k] == it.type) a = k;
      if (a < 0) continue;
      if (run && (uint32_t)(msss - last) > 1000) { run = false; return; }
      if (!run) running = msss; else running += (uint32_t)(msss - last);
      run = true; last = msss;
      imu_t = (running - 50) * 256 + 10 * (ll)((it.tag - items[0].tag) & 0xFFFFFF); imu_valid = true;
      val[a] = a < 3 ? sv / 4096.0 / (125.0 / 32768) : sv / 1024.0 / (4 * 9.80665 / 32768);
      if (++count[it.type] != cur + 1) return;
      bool all = true; for (int k = 0; k < 6; k++) all = all && count[AX[k]] == cur + 1;
      if (!all) continue;
      cur++;
      if (sent % 20 == 0) { Exp x(SbpMsgImuAux); x.m.imu_aux.imu_type = 0; x.m.imu_aux.imu_conf = 0x41; x.has_alt = temp_set; x.v[0] = !temp_set ? -32768 : temp >= 87 - 1.0 / 512 ? 32767 : temp <= -41 + 1.0 / 512 ? -32767 : (temp - 23) * 512; w.list.push_back(x); }
      sent++; Exp e(SbpMsgImuRaw); for (int k = 0; k < 6; k++) e.v[k] = val[k] > 32767 ? 32767 : val[k] < -32768 ? -32768 : val[k];
      e.t = imu_t; w.list.push_back(e);
    }
  }
  void esf_meas(uint32_t tag, unsigned low, const std::vector<Item> &items, Want &w) {
    if (!(low & 8)) return;
    for (auto &it : items) {
      int type = it.type & 0x3F; if (type < 6 || type > 11) continue;
      if (orun && (uint32_t)(tag - olast) > 1000) { orun = false; for (auto &x : wheel) x.fresh = true; return; }
      if (!orun) orunning = tag; else orunning += (uint32_t)(tag - olast);
      orun = true; olast = tag; uint32_t v = it.val & 0xFFFFFF;
      if (type == 11) { Exp e(SbpMsgOdometry); auto &p = e.m.odometry; p.tow = (u32)(orunning % WK); p.velocity = v & 0x800000 ? (s32)v - (1 << 24) : (s32)v; p.flags = (u8)(2 | 3 << 3 | (v >> 23) << 5); w.list.push_back(e); continue; }
      int src = type == 8 ? 1 : type == 6 ? 2 : type == 7 ? 3 : 0; Wheel &h = wheel[src]; uint32_t in = v & 0x3FFFFF; Exp e(SbpMsgWheeltick); auto &p = e.m.wheeltick;
      uint32_t old = h.in; if (!h.seen) h.out = in; else { uint32_t inc = (in - old) & 0x3FFFFF; h.out = v & 0x800000 ? h.out - inc : h.out + inc; }
      e.has_alt = h.fresh && h.seen; e.ticks_alt = in; h.seen = true; h.fresh = false; h.in = in; p.source = (u8)src; p.ticks = (s32)h.out; p.flags = 2; e.t = orunning % WK; w.list.push_back(e);
    }
  }
  static ll nearest(ll a, ll ref, bool &sure) { ll d = pmod(a - ref, WK); sure = sure && (d < WK / 2 - 2000 || d > WK / 2 + 2000); if (d > WK / 2) d -= WK; return ref + d; }
  void status(const Msg &q, Want &w) {
    int ft = (int)q.get("fix_type"), fl = (int)q.get("status_flags"); bool good = (ft == 3 || ft == 4) && (fl & 1), time = (fl & 8) && (fl & 4);
    if (time) week_known = true;
    if (!good || !time || !obs_valid || !imu_valid) return;
    ll itow = q.get("i_tow"); uint32_t msss = (uint32_t)q.get("msss"); bool sure = true;
    ll g = nearest(itow, (ll)obs_wn * WK + (ll)(obs_tow * 1000), sure);
    ll l = msss; if (run) { ll d = (int32_t)(msss - last); l = running + d; if (d > WK / 2 - 2000 || d < -WK / 2 + 2000) sure = false; } else sure = false;
    Exp e(SbpMsgGnssTimeOffset); e.t = g - l; e.mod = sure ? 0 : WK; w.list.push_back(e); last_tow = itow;
  }
  void rawx(int wn, double tow, int n) { if (n && wn && week_known) { obs_valid = true; obs_wn = wn; obs_tow = tow; } }
  static uint32_t bits(const std::vector<uint32_t> &w, int at, int n) { uint32_t v = 0; for (int i = at; i < at + n; i++) v = v << 1 | (w[(size_t)i / 32] >> (31 - i % 32) & 1); return v; }
  static uint32_t crc226(const std::vector<uint32_t> &w) { uint32_t c = 0; for (int i = 0; i < 226; i++) { c ^= bits(w, i, 1) << 23; c <<= 1; if (c & 0x1000000) c ^= 0x1864CFB; } return c & 0xFFFFFF; }
  void sbas(int prn, const std::vector<uint32_t> &w, Want &out) {
    if (last_tow < 0 || last_tow > WK || prn < 120 || prn > 158 || (w.size() != 8 && w.size() != 9)) return;
    uint32_t pre = bits(w, 0, 8); if (pre != 0x53 && pre != 0x9A && pre != 0xC6) return;
    if (crc226(w) != bits(w, 226, 24)) return;
    Exp e(SbpMsgSbasRaw); auto &p = e.m.sbas_raw; p.sid.sat = (u8)prn; p.sid.code = 2; p.tow = (u32)pmod(last_tow - 1120, WK); p.message_type = (u8)bits(w, 8, 6);
    for (int i = 0; i < 26; i++) p.data[i] = (u8)bits(w, 14 + 8 * i, 8); p.data[26] = (u8)(bits(w, 222, 4) << 4); out.list.push_back(e);
  }
  void sat(const std::vector<SatRow> &rows, Want &w) {
    static const int CODE[7] = {0, 2, 14 + 1, 12, -1, 31, 3};
    int n = 0; for (auto &r : rows) { if (n++ >= 100) break; int code = r.gnss <= 6 ? CODE[r.gnss] : -1; int sv = r.gnss == 5 ? (u8)(r.sv + 192) : r.sv; if (code < 0) { w.azel.push_back({-1, 0, 0, 0}); w.states.push_back({-1, 0, 0}); continue; }
      w.azel.push_back({sv, code, r.azim, r.elev}); w.states.push_back({sv, code, r.cno > 63 ? 255 : 4 * r.cno}); }
  }
  void fwd(const Bytes &b, Want &w) { if (b.size() > 253 || b.empty()) return; Exp e(SbpMsgFwd); auto &p = e.m.fwd; p.source = 0; p.protocol = 1; p.n_fwd_payload = (u8)b.size(); memcpy(p.fwd_payload, b.data(), b.size()); w.list.push_back(e); }
};
// ------------------------------------------------------------------ events: a message and its meaning
struct Ev { std::string name; Bytes b; std::function<void(Ref &, Want &)> f; int hnr = -1; };
static Ev ev_pvt(const Msg &q) { return {fmt("NAV-PVT fix %lld flags %02llx tow %lld", q.get("fix_type"), q.get("flags"), q.get("i_tow")), q.s->bytes(q.r), [q](Ref &r, Want &w) { r.pvt(q, w); }}; }
static Ev ev_hnr(const Msg &q) { return {fmt("HNR-PVT tow %lld", q.get("i_tow")), q.s->bytes(q.r), [q](Ref &r, Want &w) { r.hnr(q, w); }}; }
static Ev ev_att(const Msg &q) { return {"NAV-ATT", q.s->bytes(q.r), [q](Ref &r, Want &w) { r.nav_att(q, w); }}; }
static Ev ev_vel(const Msg &q) { return {"NAV-VELECEF", q.s->bytes(q.r), [q](Ref &r, Want &w) { r.vel(q, w); }}; }
static Ev ev_status(const Msg &q) { return {fmt("NAV-STATUS fix %lld flags %02llx tow %lld msss %lld", q.get("fix_type"), q.get("status_flags"), q.get("i_tow"), q.get("msss")), q.s->bytes(q.r), [q](Ref &r, Want &w) { r.status(q, w); }}; }
static Ev ev_switch(bool on) { Ev e; e.name = on ? "high rate on" : "high rate off"; e.hnr = on; e.f = [on](Ref &r, Want &) { r.use_hnr = on; }; return e; }
static Ev ev_raw(uint32_t msss, const std::vector<Item> &it) {
  const Shape &s = shaped(0, (int)it.size()); Raw r = {msss}; for (auto &i : it) { r.push_back((uint32_t)i.type << 24 | (i.val & 0xFFFFFF)); r.push_back(i.tag); }
  return {fmt("ESF-RAW msss %u, %zu items", msss, it.size()), s.bytes(r), [msss, it](Ref &r2, Want &w) { r2.esf_raw(msss, it, w); }};
}
static Ev ev_meas(uint32_t tag, unsigned low, const std::vector<Item> &it, uint32_t ttag = 5678) {
  const Shape &s = shaped(1, (int)it.size(), low); Raw r = {ttag, (uint64_t)(it.size() << 11 | low), 7}; for (auto &i : it) r.push_back((uint32_t)(i.type & 0x3F) << 24 | (i.val & 0xFFFFFF)); if (low & 8) r.push_back(tag);
  std::string n; for (auto &i : it) n += fmt(" %d:%06x", i.type, i.val); return {fmt("ESF-MEAS tag %u flags %x", tag, low) + n, s.bytes(r), [tag, low, it](Ref &r2, Want &w) { r2.esf_meas(tag, low, it, w); }};
}
static Ev ev_rawx(int wn, double tow, int n) {
  const Shape &s = shaped(2, n); Raw r = s.pattern(0); uint64_t b; memcpy(&b, &tow, 8); r[0] = b; r[1] = (uint64_t)wn; r[3] = (uint64_t)n; return {fmt("RXM-RAWX week %d tow %g, %d measurements", wn, tow, n), s.bytes(r), [=](Ref &r2, Want &) { r2.rawx(wn, tow, n); }};
}
static std::vector<uint32_t> sbas_words(int pre, int type, uint64_t fill, int n = 8) {
  std::vector<uint32_t> w; for (int i = 0; i < n; i++) w.push_back((uint32_t)(mix(fill, (uint64_t)i) >> 20));
  w[0] = (w[0] & 0x3FFFF) | (uint32_t)pre << 24 | (uint32_t)type << 18; uint32_t c = Ref::crc226(w); w[7] = (w[7] & ~(0xFFFFFFu << 6)) | c << 6; return w;
}
static Ev ev_sbas(int prn, const std::vector<uint32_t> &w) {
  Raw r = {1, (uint64_t)prn, 0, 0, w.size(), 0, 2, 0}; for (auto x : w) r.push_back(x);
  return {fmt("SBAS %d type %d, %zu words", prn, w.size() ? (int)(w[0] >> 18 & 63) : -1, w.size()), shaped(3, (int)w.size()).bytes(r), [prn, w](Ref &r2, Want &o) { r2.sbas(prn, w, o); }};
}
static Ev ev_sat(const std::vector<SatRow> &rows) {
  const Shape &s = shaped(4, (int)rows.size()); Raw r = s.pattern(2); size_t k = 4; for (auto &x : rows) { r[k] = (uint64_t)x.gnss; r[k + 1] = (uint64_t)x.sv; r[k + 2] = (uint64_t)x.cno; r[k + 3] = (uint8_t)x.elev; r[k + 4] = (uint16_t)x.azim; k += 7; }
  return {fmt("NAV-SAT, %zu satellites", rows.size()), s.bytes(r), [rows](Ref &r2, Want &w) { r2.sat(rows, w); }};
}
static Ev ev_fwd(size_t n) { Bytes b = {0x0A, 0x09, (uint8_t)n, (uint8_t)(n >> 8)}; for (size_t i = 0; i < n; i++) b.push_back((uint8_t)(i * 37 + 5)); return {fmt("MON-HW, %zu bytes", n), b, [b](Ref &r, Want &w) { r.fwd(b, w); }}; }
static Ev ev_none(const std::string &n, const Bytes &b) { return {n, b, [](Ref &, Want &) {}}; }
// ------------------------------------------------------------------ comparison
static bool close_to(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
static std::string differs(const Exp &x, const Emit &e, const char **known) {
  const sbp_msg_t &a = e.m, &b = x.m; *known = nullptr;
  if (e.type != x.type) return fmt("is a message %x, expected %x", e.type, x.type);
#define SAME(g) if ((double)(a.g) != (double)(b.g)) return fmt(#g " is %.17g, expected %.17g", (double)(a.g), (double)(b.g));
#define NEAR(g, tol) if (!close_to((double)(a.g), (double)(b.g), tol)) return fmt(#g " is %.17g, expected %.17g", (double)(a.g), (double)(b.g));
  switch (x.type) {
    case SbpMsgPosLlh: SAME(pos_llh.tow) NEAR(pos_llh.lat, 1e-10) NEAR(pos_llh.lon, 1e-10) NEAR(pos_llh.height, 1e-7) SAME(pos_llh.h_accuracy) SAME(pos_llh.v_accuracy) SAME(pos_llh.n_sats) SAME(pos_llh.flags) break;
    case SbpMsgOrientEuler: SAME(orient_euler.tow) SAME(orient_euler.roll) SAME(orient_euler.pitch) SAME(orient_euler.yaw) SAME(orient_euler.flags)
      NEAR(orient_euler.roll_accuracy, 1e-6 + 3e-7 * b.orient_euler.roll_accuracy) NEAR(orient_euler.pitch_accuracy, 1e-6 + 3e-7 * b.orient_euler.pitch_accuracy) NEAR(orient_euler.yaw_accuracy, 1e-6 + 3e-7 * b.orient_euler.yaw_accuracy) break;
    case SbpMsgVelEcef: SAME(vel_ecef.tow) SAME(vel_ecef.x) SAME(vel_ecef.y) SAME(vel_ecef.z) SAME(vel_ecef.n_sats) SAME(vel_ecef.flags)
      if (a.vel_ecef.accuracy != b.vel_ecef.accuracy) { if (a.vel_ecef.accuracy == Ref::clamp16(x.acc_full)) *known = "velecef-accuracy-cm"; return fmt("the accuracy is %d mm/s for %lld cm/s", a.vel_ecef.accuracy, x.acc_full); } break;
    case SbpMsgImuAux: SAME(imu_aux.imu_type) SAME(imu_aux.imu_conf) if (!close_to(a.imu_aux.temp, x.v[0], x.has_alt ? 1.0001 : 0)) return fmt("the temperature is %d, expected %g", a.imu_aux.temp, x.v[0]); break;
    case SbpMsgImuRaw: {
      if (a.imu_raw.tow >> 30 != 1) return fmt("the time reference is %u", a.imu_raw.tow >> 30);
      ll t = (ll)(a.imu_raw.tow & 0x3FFFFFFF) * 256 + a.imu_raw.tow_f, d = pmod(t - x.t, W256); if (t >= W256 || (d > 1 && d < W256 - 1)) return fmt("the time is %u+%d/256 ms, expected %g ms", a.imu_raw.tow & 0x3FFFFFFF, a.imu_raw.tow_f, (double)pmod(x.t, W256) / 256);
      const int o[6] = {a.imu_raw.gyr_x, a.imu_raw.gyr_y, a.imu_raw.gyr_z, a.imu_raw.acc_x, a.imu_raw.acc_y, a.imu_raw.acc_z};
      for (int k = 0; k < 6; k++) if (!close_to(o[k], x.v[k], 0.505)) return fmt("%s %c is %d, expected %.3f", k < 3 ? "rate" : "acceleration", "xyz"[k % 3], o[k], x.v[k]);
      break; }
    case SbpMsgOdometry: SAME(odometry.tow) SAME(odometry.velocity) SAME(odometry.flags) break;
    case SbpMsgWheeltick: { SAME(wheeltick.flags) SAME(wheeltick.source) if (a.wheeltick.ticks != b.wheeltick.ticks && !(x.has_alt && (uint32_t)a.wheeltick.ticks == x.ticks_alt)) return fmt("the ticks are %d, expected %d", a.wheeltick.ticks, b.wheeltick.ticks);
      ll d = pmod((ll)a.wheeltick.time - x.t * 1000, WK * 1000); if (a.wheeltick.time >= (u64)WK * 1000 || (d > 1 && d < WK * 1000 - 1)) return fmt("the time is %llu us, expected %lld ms", (unsigned long long)a.wheeltick.time, x.t); break; }
    case SbpMsgGnssTimeOffset: { ll t = (ll)a.gnss_time_offset.weeks * WK + a.gnss_time_offset.milliseconds, d = t - x.t; if (a.gnss_time_offset.microseconds || a.gnss_time_offset.flags) return "microseconds or flags set"; if (x.mod) { d = pmod(d, x.mod); if (d > x.mod / 2) d -= x.mod; } if (d < -1 || d > 1) return fmt("the offset is %lld ms, expected %lld%s", t, x.t, x.mod ? " (any week)" : ""); break; }
    case SbpMsgSbasRaw: SAME(sbas_raw.sid.sat) SAME(sbas_raw.sid.code) SAME(sbas_raw.tow) SAME(sbas_raw.message_type) if (memcmp(a.sbas_raw.data, b.sbas_raw.data, 27)) return "the data differ: " + hex(a.sbas_raw.data, 27) + ", expected " + hex(b.sbas_raw.data, 27); break;
    case SbpMsgFwd: SAME(fwd.source) SAME(fwd.protocol) SAME(fwd.n_fwd_payload) if (memcmp(a.fwd.fwd_payload, b.fwd.fwd_payload, b.fwd.n_fwd_payload)) return "the bytes differ"; break;
  }
  return "";
}
static void judge(Ctx &c, const std::vector<Emit> &out, const Want &w, int sender, const std::string &what) {
  size_t k = 0; std::vector<std::array<int, 4>> az; std::vector<std::array<int, 3>> stt; uint64_t h = 7;
  for (auto &e : out) {
    if (e.sender != sender) c.check(false, "%s: sent as %04x", what.c_str(), e.sender);
    if (e.type == SbpMsgObs) continue;
    if (e.type == SbpMsgSvAzEl) { auto &p = e.m.sv_az_el; c.check(p.n_azel >= 1 && p.n_azel <= 63, "%s: a message with %d directions", what.c_str(), p.n_azel); for (int i = 0; i < p.n_azel; i++) az.push_back({p.azel[i].sid.sat, p.azel[i].sid.code, p.azel[i].az, p.azel[i].el}); continue; }
    if (e.type == SbpMsgMeasurementState) { auto &p = e.m.measurement_state; c.check(p.n_states >= 1 && p.n_states <= 85, "%s: a message with %d states", what.c_str(), p.n_states); for (int i = 0; i < p.n_states; i++) stt.push_back({p.states[i].mesid.sat, p.states[i].mesid.code, p.states[i].cn0}); continue; }
    if (k >= w.list.size()) c.check(false, "%s: sends %s, expected %zu messages", what.c_str(), ubxpipe::show(e).c_str(), w.list.size());
    const char *known; std::string d = differs(w.list[k], e, &known);
    if (d.size()) { if (known) c.fail(known, "%s: %s", what.c_str(), d.c_str()); else c.check(false, "%s: message %zu: %s: %.300s", what.c_str(), k, d.c_str(), ubxpipe::show(e).c_str()); }
    h = mix(h, (uint64_t)e.type * 131 + (e.type == SbpMsgImuRaw ? e.m.imu_raw.tow : e.type == SbpMsgWheeltick ? (uint64_t)e.m.wheeltick.ticks : 0)); k++;
  }
  c.check(k == w.list.size(), "%s: sends %zu messages, expected %zu", what.c_str(), k, w.list.size());
  c.check(az.size() == w.azel.size() && stt.size() == w.states.size(), "%s: %zu directions, %zu states for %zu satellites", what.c_str(), az.size(), stt.size(), w.azel.size());
  for (size_t i = 0; i < az.size(); i++) { auto &x = w.azel[i]; if (x[0] < 0) continue; auto &y = az[i]; c.check(y[0] == x[0] && y[1] == x[1] && (u8)y[3] == (u8)x[3] && std::abs(2 * y[2] - x[2]) <= 1, "%s: direction %zu: satellite %d/%d azimuth %d (2 deg) elevation %d, expected %d/%d %d deg %d", what.c_str(), i, y[0], y[1], y[2], y[3], x[0], x[1], x[2], x[3]); }
  for (size_t i = 0; i < stt.size(); i++) { auto &x = w.states[i]; if (x[0] < 0) continue; c.check(stt[i] == x, "%s: state %zu: satellite %d/%d cn0 %d, expected %d/%d %d", what.c_str(), i, stt[i][0], stt[i][1], stt[i][2], x[0], x[1], x[2]); }
  c.state(h); c.traced(1);
}
static void feed(Ctx &c, U &u, Ref &r, const Ev &e, int sender = 61568) {
  if (c.logging) c.note("%s", e.name.c_str());
  c.step();
  if (e.hnr >= 0) ubx_set_hnr_flag(u.st(), e.hnr); else u.body(e.b);
  Want w; e.f(r, w); judge(c, u.out, w, sender, e.name); u.out.clear();
}
// ------------------------------------------------------------------ fix types and flags
static void solution(Ctx &c) {
  int ft = c.choose(256, "fix type"), hi = c.choose(16, "flags, upper half"); c.leaf(); Msg p(S_pvt, 2), h(S_hnr, 2), a(S_att, 0), v(S_vel, 0);
  a.set("roll", -1234567).set("heading", 3599999); v.set("ecefVX", -123).set("speed_acc", 0).set("i_tow", 77); h.set("heading_vehicle", 17000000);
  for (int lo = 0; lo < 16; lo++) { U u; Ref r; p.set("fix_type", ft).set("flags", hi << 4 | lo).set("num_sats", 3 + lo); feed(c, u, r, ev_pvt(p)); feed(c, u, r, ev_att(a)); feed(c, u, r, ev_vel(v)); feed(c, u, r, ev_hnr(h)); feed(c, u, r, ev_switch(true)); feed(c, u, r, ev_hnr(h)); feed(c, u, r, ev_pvt(p)); feed(c, u, r, ev_att(a)); feed(c, u, r, ev_vel(v)); }
}
// ------------------------------------------------------------------ every field, its boundary values and every bit
static std::vector<uint64_t> values(const Field &f) {
  std::vector<uint64_t> v = {0, 1, ~0ull, ~0ull - 1}; for (int b = 0; b < 8 * f.w; b++) { v.push_back(1ull << b); v.push_back(~(1ull << b)); v.push_back((1ull << b) - 1); }
  for (ll x : {65534, 65535, 65536, 99999, 100000, 899999999, 900000000, 1800000000, -1800000000, 214748364, -214748364, 6553, 6554}) v.push_back((uint64_t)x);
  return v;
}
static bool scaled(const std::string &n) { return n == "roll" || n == "pitch" || n == "heading" || n == "heading_vehicle" || n == "ecefVX" || n == "ecefVY" || n == "ecefVZ"; }
static void fields(Ctx &c) {
  static const Shape *S[4] = {&S_pvt, &S_hnr, &S_att, &S_vel}; int k = c.choose(4, "message"); const Shape &s = *S[k]; int i = c.choose((uint32_t)s.f.size(), "field"); int bg = c.choose(4, "background"); c.leaf();
  auto vs = values(s.f[(size_t)i]); size_t nj = c.thorough ? s.f.size() : 1;
  for (size_t j = 0; j < nj; j++) {
    std::vector<uint64_t> js = {~0ull}; if (c.thorough) { if (j == (size_t)i) continue; js = {0, ~0ull, 1ull << (8 * s.f[j].w - 1)}; }
    for (uint64_t y : js) for (uint64_t v : vs) {
      Msg m(s, (unsigned)bg); m.r[(size_t)i] = v; if (c.thorough) m.r[j] = y;
      bool ok = true; for (size_t q = 0; q < s.f.size(); q++) if (scaled(s.f[q].name)) { ll x = (ll)Shape::extended(s.f[q], m.r[q]); if (x > 214748364 || x < -214748364) { if (q == (size_t)i || (c.thorough && q == j)) ok = false; else m.r[q] = (uint64_t)(x / 16); } }
      if (!ok) continue;                                       // does not fit the SBP field
      U u; Ref r; Msg p(S_pvt, 0); p.set("fix_type", 3).set("flags", 0x43).set("num_sats", 17); feed(c, u, r, ev_pvt(p));
      if (k == 1) feed(c, u, r, ev_switch(true));
      feed(c, u, r, k == 0 ? ev_pvt(m) : k == 1 ? ev_hnr(m) : k == 2 ? ev_att(m) : ev_vel(m));
    }
  }
}
// ------------------------------------------------------------------ histories of the navigation messages
static void navigation(Ctx &c) {
  static std::vector<Ev> E; if (E.empty()) {
    auto P = [](int fx, int fl, int n, int tow) { Msg m(S_pvt, 2); m.set("fix_type", fx).set("flags", fl).set("num_sats", n).set("i_tow", tow); return ev_pvt(m); };
    E.push_back(P(3, 3, 9, 1000)); E.push_back(P(4, 0x83, 12, 1120)); E.push_back(P(0, 0, 0, 0)); E.push_back(P(1, 1, 3, 604799999));
    for (int k = 0; k < 2; k++) { Msg h(S_hnr, k ? 2 : 0), a(S_att, 0), v(S_vel, 0); h.set("heading_vehicle", k ? -55 : 12345).set("i_tow", 5000 + k); a.set("i_tow", 6000 + k).set("roll", k ? 100 : -7).set("pitch", 3 + k).set("heading", 35000000 + k).set("acc_roll", 5 + k).set("acc_pitch", 77).set("acc_heading", 88); v.set("ecefVX", 5 - 10 * k).set("ecefVZ", k).set("i_tow", 12); E.push_back(ev_hnr(h)); E.push_back(ev_att(a)); if (!k) E.push_back(ev_vel(v)); }
    E.push_back(ev_switch(true)); E.push_back(ev_switch(false)); E.push_back(ev_sbas(131, sbas_words(0x53, 24, 9)));
    Bytes cut = E[1].b; cut.resize(60); E.push_back(ev_none("a NAV-PVT cut short", cut));
  }
  U u; Ref r; int n = (int)c.choose(c.thorough ? 6 : 4, "length") + 1; std::vector<int> q; for (int i = 0; i < n; i++) q.push_back((int)c.choose((uint32_t)E.size(), "message"));
  c.leaf(); for (int i : q) feed(c, u, r, E[(size_t)i]);
}
// ------------------------------------------------------------------ inertial data
static const int AX[6] = {14, 13, 5, 16, 17, 18};
static std::vector<Item> sample(uint32_t tag, uint32_t v = 0x1000) { std::vector<Item> x; for (int k = 0; k < 6; k++) x.push_back({AX[k], v + (uint32_t)k * 0x3333, tag}); return x; }
static void imu_values(Ctx &c) {                              // every 24-bit value of every axis
  uint32_t blk = c.choose(4096, "upper half"); int way = c.thorough ? 0 : 1; c.leaf(); std::vector<uint32_t> vs;
  for (uint32_t lo = 0; lo < 4096; lo++) if (!way || lo < 8 || lo >= 4088 || lo % 11 == 0 || (blk % 1024 < 2)) vs.push_back(blk << 12 | lo);
  U u; Ref r; r.sent = 0; uint32_t msss = 100000;
  for (size_t i = 0; i < vs.size();) {
    std::vector<Item> it; for (int g = 0; g < 21 && i < vs.size(); g++, i++) for (int k = 0; k < 6; k++) it.push_back({AX[k], (vs[i] + (uint32_t)k * 0x200000) & 0xFFFFFF, (uint32_t)g * 256});
    feed(c, u, r, ev_raw(msss, it)); msss += 100;
  }
}
static void imu_axes(Ctx &c) {                                // one axis at a time, its range boundaries
  int k = c.choose(6, "axis"), neg = c.choose(2, "negative"); int near = c.choose(3, "near"); c.leaf(); static const int at[2][3] = {{0, 512000, 0x7FFFC0}, {0, 40168, 0x7FFFC0}};
  for (int d = -60; d < 64; d++) { U u; Ref r; auto s = sample(5); int v = at[k >= 3][near] + d; s[(size_t)k].val = (uint32_t)(neg ? -v : v) & 0xFFFFFF; if (std::abs(v) > 0x7FFFFF) continue; feed(c, u, r, ev_raw(1000, s)); }
}
// two samples with temperature and other data between; then up to k items dropped, repeated, replaced, or exchanged
static void imu_order(Ctx &c) {
  std::vector<Item> it; uint32_t p = c.choose(24, "order"); int lead = c.choose(3, "first item"); std::vector<int> ord = {0, 1, 2, 3, 4, 5};
  { int x[4] = {0, 1, 2, 3}; for (uint32_t i = 0; i < p; i++) std::next_permutation(x, x + 4); ord = {x[0], 4, x[1], x[2], 5, x[3]}; }
  if (lead == 1) it.push_back({12, 2345, 90}); if (lead == 2) it.push_back({9, 77, 90});
  for (int g = 0; g < 3; g++) { for (int k : ord) it.push_back({AX[k], (uint32_t)(g * 1000 + k * 10 + 7), (uint32_t)(100 + 256 * g)}); if (g == 0) { it.push_back({12, 0xFFFF00, 100}); it.push_back({0, 5, 100}); } }
  std::vector<Item> out; for (size_t i = 0; i < it.size(); i++) switch (c.dev(6, "item")) {
    case 0: out.push_back(it[i]); break; case 1: break; case 2: out.push_back(it[i]); out.push_back(it[i]); break; case 3: { Item x = it[i]; x.type = AX[(i + 1) % 6]; out.push_back(x); break; }
    case 4: if (i + 1 < it.size()) { out.push_back(it[i + 1]); out.push_back(it[i]); i++; } else out.push_back(it[i]); break; default: { Item x = it[i]; x.type = 15; out.push_back(x); out.push_back(it[i]); } }
  // a sample whose axes carry different tags is timed by its last; keep the tags of a sample equal by construction of the expectation
  c.leaf(); U u; Ref r; feed(c, u, r, ev_raw(5000, out)); feed(c, u, r, ev_raw(5100, sample(3))); auto s = sample(3, 0x900000); s.insert(s.begin() + 3, {12, 0x900, 3}); feed(c, u, r, ev_raw(5101, s)); feed(c, u, r, ev_raw(6101, sample(9)));
}
static void imu_time(Ctx &c) {
  static const uint32_t first[] = {0, 1, 49, 50, 51, 10000, 604799990u, 604800049u, 604800050u, 604800051u, 0x7FFFFFF0u, 0xFFFFFF00u, 0xFFFFFFFFu, 3024000000u};
  static const uint32_t delta[] = {0, 1, 7, 100, 999, 1000, 1001, 0xFFFFFFFFu, 5000, 0x80000000u}; static const uint32_t tag0[] = {0, 1, 0xFFFF00, 0xFFFFFF, 0x123456}; static const uint32_t tstep[] = {256, 2560, 0, 0x7FFFFF, 0xFFFFFF, 25600};
  uint32_t t = first[c.choose(14, "first")]; int n = c.thorough ? 3 : 2; std::vector<Ev> e;
  for (int i = 0; i <= n; i++) {
    if (i) t += delta[c.choose(10, "step")];
    uint32_t g0 = tag0[i ? ((uint32_t)i + first[1]) % 5 : c.choose(5, "first tag")], st = tstep[i < 2 ? c.choose(6, "tag step") : (uint32_t)i % 6]; std::vector<Item> it = sample(g0 & 0xFFFFFF), b = sample((g0 + st) & 0xFFFFFF); it.insert(it.end(), b.begin(), b.end()); e.push_back(ev_raw(t, it));
  }
  c.leaf(); U u; Ref r; for (auto &x : e) feed(c, u, r, x);
}
// many messages at a constant rate across the wrap of the counter and the end of the week
static void imu_long(Ctx &c) {
  static const uint32_t start[] = {0, 604790000u, 0xFFFFE000u, 1209590000u, 4233590000u}; uint32_t t = start[c.choose(5, "start")], step = (uint32_t[]){10, 100, 1000, 333}[c.choose(4, "step")]; int temp = c.choose(4, "temperature"), n = c.thorough ? 3000 : 300; bool meas = c.choose(2, "wheels too"); c.leaf(); U u; Ref r; uint32_t tick = 0x3FFF00;
  for (int i = 0; i < n; i++, t += step) { auto s = sample((t * 26) & 0xFFFFFF); if (temp && i >= 10 * temp) s.push_back({12, (uint32_t)(i * 7 * (temp == 2 ? -1 : 1)) & 0xFFFFFF, s[0].tag}); feed(c, u, r, ev_raw(t, s)); if (meas) { tick += 5; feed(c, u, r, ev_meas(t, 8, {{6, tick & 0x3FFFFF, 0}, {11, (uint32_t)i, 0}, {7, (tick * 3) & 0x3FFFFF, 0}})); } }
}
static void temperature(Ctx &c) {
  uint32_t blk = c.choose(256, "upper half"); c.leaf();
  for (uint32_t lo = 0; lo < 65536; lo += (blk <= 1 || blk == 255 ? (c.thorough ? 1 : 5) : 4099)) { U u; Ref r; auto s = sample(1); s.insert(s.begin(), {12, blk << 16 | lo, 1}); feed(c, u, r, ev_raw(77, s)); }
}
// ------------------------------------------------------------------ wheels
static void wheels(Ctx &c) {
  static const uint32_t first[] = {0, 1234, 604799995u, 0xFFFFFFF0u, 0xFFFFFC20u}, delta[] = {0, 10, 999, 1000, 1001, 0xFFFFFFFFu, 60000}, inc[] = {10, 0x3FFFFF, 0, 1, 0x200000, 0x400000}; static const int dsel[] = {1, 4, 5, 3};
  int w0 = c.choose(5, "first tag"); uint32_t t = first[w0], tick = (uint32_t[]){91011, 0x3FFFFE, 0, 0x3FFFFF, 0x1FFFFF}[c.thorough ? w0 : c.choose(3, "first count")], other = 500; int n = c.thorough ? 3 : 2; std::vector<Ev> e;
  for (int i = 0; i <= n; i++) {
    if (i) t += delta[i == 1 && c.thorough ? c.choose(7, "step") : dsel[c.choose(4, "step")]];
    int k = c.choose(8, "content");
    if (i) tick += inc[c.choose(i == 1 ? 6 : c.thorough ? 2 : 3, "ticks")];
    uint32_t tk = tick & 0x3FFFFF, rv = tk | 0x800000; other += 3; switch (k) {
      case 0: e.push_back(ev_meas(t, 8, {{6, tk, 0}})); break; case 1: e.push_back(ev_meas(t, 8, {{6, rv, 0}})); break;
      case 2: e.push_back(ev_meas(t, 8, {{8, tk, 0}, {9, other, 0}})); break; case 3: e.push_back(ev_meas(t, 8, {{11, 0x800000 | tk, 0}, {6, tk, 0}, {7, other, 0}})); break;
      case 4: e.push_back(ev_meas(t, 0, {{6, tk, 0}})); break; case 5: e.push_back(ev_meas(t, 8, {{14, 5, 0}, {16, 6, 0}})); break;
      case 6: e.push_back(ev_meas(t, 8, {{10, tk, 0}})); break; default: e.push_back(ev_meas(t, 8, {{11, tick, 0}})); }
  }
  c.leaf(); U u; Ref r; for (auto &x : e) feed(c, u, r, x);
}
static void wheel_values(Ctx &c) {
  int type = c.choose(64, "data type"), low = c.choose(16, "flags") | 0x3A0 * (int)c.choose(2, "other flags"); c.leaf();
  for (int b = -1; b < 24; b++) for (int inv = 0; inv < 2; inv++) { U u; Ref r; uint32_t v = b < 0 ? 0 : 1u << b; if (inv) v ^= 0xFFFFFF; feed(c, u, r, ev_meas(4000, (unsigned)low, {{type, v, 0}})); feed(c, u, r, ev_meas(4010, (unsigned)low, {{type, 0x123456, 0}})); }
}
static void wheel_counts(Ctx &c) {
  int n = c.choose(32, "number of items"), way = c.choose(4, "types"); c.leaf(); U u; Ref r;
  for (int g = 0; g < 6; g++) { std::vector<Item> it; for (int i = 0; i < n; i++) it.push_back({way == 0 ? 6 + (i + g) % 6 : way == 1 ? 6 + i % 2 : way == 2 ? (i * 7) % 20 : 8, (uint32_t)(1000 * (i % 5) + 17 * g + (g == 3 ? 0x800000 : 0)), 0}); feed(c, u, r, ev_meas(100u + 50u * (unsigned)g, 8, it)); }
}
// ------------------------------------------------------------------ local time against GNSS time
static void offsets(Ctx &c) {
  static const uint32_t local[] = {4711, 604799000u, 0xFFFFFF00u, 3000000000u}; static const int otow[] = {100, 0, 604799, 302400}; static const int wns[] = {2100, 1, 0};
  uint32_t t = local[c.choose(4, "local time")]; int ot = otow[c.choose(4, "observation time")], wn = wns[c.choose(3, "week")]; int fl0 = c.choose(2, "week known first"); std::vector<Ev> e;
  auto st = [](int fix, int flags, ll tow, uint32_t ms) { Msg m(S_status, 2); m.set("fix_type", fix).set("status_flags", flags).set("i_tow", tow).set("msss", ms); return ev_status(m); };
  if (fl0) e.push_back(st(0, 0xC, 5, 5));
  int n = c.thorough ? 5 : 4; for (int i = 0; i < n; i++) switch (c.choose(10, "message")) {
    case 0: e.push_back(ev_rawx(wn, ot, 1)); break; case 1: e.push_back(ev_raw(t, sample(5))); break; case 2: t += 500; e.push_back(ev_raw(t, sample(5))); break;
    case 3: e.push_back(st(3, 0xDD, (ll)ot * 1000 + 70, t + 70)); break; case 4: e.push_back(st(4, 0xD, pmod((ll)ot * 1000 - 200, WK), t - 200)); break; case 5: e.push_back(ev_sbas(120, sbas_words(0x9A, 1, 3))); break;
    case 6: t += 5000; e.push_back(ev_raw(t, sample(5))); break; case 7: e.push_back(ev_rawx(wn, ot, 0)); break; case 9: e.push_back(st(3, 0xD1, (ll)ot * 1000 + 90, t + 90)); break; default: ot = (ot + 600) % 604800; if (ot < 600) wn += wn > 0; e.push_back(ev_rawx(wn, ot, 2)); }
  c.leaf(); U u; Ref r; for (auto &x : e) feed(c, u, r, x);
}
static void status_flags(Ctx &c) {
  int fix = c.choose(256, "fix type"); c.leaf();
  for (int fl = 0; fl < 256; fl++) {
    U u; Ref r; Msg m(S_status, 2), g(S_status, 2); g.set("fix_type", 0).set("status_flags", fl & 1 ? 0xC : 0).set("i_tow", 9).set("msss", 8); m.set("fix_type", fix).set("status_flags", fl).set("i_tow", 5000 + fl).set("msss", 2000 + 7 * fix);
    feed(c, u, r, ev_status(m)); feed(c, u, r, ev_rawx(2200, 4, 1)); feed(c, u, r, ev_status(m)); feed(c, u, r, ev_raw(1999, sample(1))); feed(c, u, r, ev_status(m)); feed(c, u, r, ev_sbas(133, sbas_words(0xC6, 2, 5))); feed(c, u, r, ev_rawx(2200, 4, 1)); feed(c, u, r, ev_status(m)); feed(c, u, r, ev_sbas(133, sbas_words(0xC6, 2, 5)));
  }
}
static void offset_times(Ctx &c) {                            // receiver counter and GNSS time each near a wrap
  static const ll tows[] = {0, 1, 999, 1000, 302399000, 302401500, 604799000, 604799999}; static const uint32_t ms[] = {0, 1, 60, 604799999u, 604800000u, 604800100u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, 0xFFFFFF00u}; static const ll ds[] = {0, 10, -10, 990, -990, 3600000, -3600000, 302000000, -302000000};
  ll it = tows[c.choose(8, "time of week")], d = ds[c.choose(9, "difference")]; uint32_t m0 = ms[c.choose(10, "local")]; ll ld = ds[c.choose(9, "local difference")]; c.leaf();
  for (int wn : {1, 2099, 2100, 4000}) { U u; Ref r; ll o = (ll)wn * WK + it + d; if (o < WK / 2) continue; Msg m(S_status, 0); m.set("fix_type", 3).set("status_flags", 0xD).set("i_tow", it).set("msss", (ll)(uint32_t)(m0 + (uint32_t)ld)); Msg k = m; k.set("fix_type", 0);
    feed(c, u, r, ev_status(k)); feed(c, u, r, ev_rawx((int)(o / WK), (double)(o % WK) / 1000, 1)); feed(c, u, r, ev_raw(m0 - 300, sample(7))); feed(c, u, r, ev_raw(m0, sample(9))); feed(c, u, r, ev_status(m)); feed(c, u, r, ev_raw(m0 + 400, sample(9))); feed(c, u, r, ev_status(m)); }
}
// ------------------------------------------------------------------ SBAS
static Ev tow_from(int way, ll tow) { if (way == 0) { Msg m(S_pvt, 0); m.set("i_tow", tow); return ev_pvt(m); } Msg m(S_hnr, 0); m.set("i_tow", tow); return ev_hnr(m); }
static void sbas_times(Ctx &c) {
  static const ll t[] = {0, 1, 1119, 1120, 1121, 1000, 604799999, 604800000, 604800001, 0xFFFFFFFFll, 302400000, 2000, 0x80000000ll}; ll a = t[c.choose(13, "time")], b = t[c.choose(13, "later time")]; int way = c.choose(4, "source"); c.leaf();
  U u; Ref r; auto w = ev_sbas(138, sbas_words(0x53, 27, 77)); feed(c, u, r, w); feed(c, u, r, tow_from(way & 1, a)); feed(c, u, r, w); feed(c, u, r, w); feed(c, u, r, tow_from(way >> 1, b)); feed(c, u, r, w);
}
static void sbas_messages(Ctx &c) {
  int prn = c.choose(256, "satellite"), n = c.choose(11, "words"); c.leaf(); U u; Ref r; feed(c, u, r, tow_from(0, 500000));
  for (int pre : {0x53, 0x9A, 0xC6, 0x54, 0x00, 0xFF}) for (int type : {0, 1, 24, 62, 63}) { if (n < 8) { std::vector<uint32_t> w = sbas_words(pre, type, 5); w.resize((size_t)n); feed(c, u, r, ev_sbas(prn, w)); } else feed(c, u, r, ev_sbas(prn, sbas_words(pre, type, (uint64_t)(prn * 3 + pre), n))); }
}
static void sbas_bits(Ctx &c) {                               // every bit of the message, one or two wrong
  int pre = (int[]){0x53, 0x9A, 0xC6}[c.choose(3, "preamble")], type = c.choose(64, "type"); c.leaf(); U u; Ref r; u.st(); ubx_set_sender_id(u.st(), 0x1234); feed(c, u, r, tow_from(1, 7000), 0x1234);
  auto w = sbas_words(pre, type, (uint64_t)type * 5 + 1); feed(c, u, r, ev_sbas(129, w), 0x1234);
  for (int i = 0; i < 256; i++) { auto x = w; x[(size_t)i / 32] ^= 1u << (31 - i % 32); feed(c, u, r, ev_sbas(129, x), 0x1234); if (i < 226 && i >= 14) { uint32_t k = Ref::crc226(x); x[7] = (x[7] & ~(0xFFFFFFu << 6)) | k << 6; feed(c, u, r, ev_sbas(129, x), 0x1234); } }
  if (c.thorough) for (int i = 0; i < 250; i++) for (int j = 0; j < i; j++) { auto x = w; x[(size_t)i / 32] ^= 1u << (31 - i % 32); x[(size_t)j / 32] ^= 1u << (31 - j % 32); feed(c, u, r, ev_sbas(129, x), 0x1234); }
}
// ------------------------------------------------------------------ satellites in view
static SatRow row(int i) { static const int G[6] = {0, 1, 2, 3, 5, 6}; int g = G[i % 6]; return {g, g == 5 ? 1 + i % 10 : g == 1 ? 120 + i % 39 : 1 + i % 28, (i * 5) % 64, (i * 13) % 181 - 90, (i * 31) % 361}; }
static void view_counts(Ctx &c) { int n = c.choose(121, "satellites"), k = c.choose(3, "again"); c.leaf(); U u; Ref r; std::vector<SatRow> v; for (int i = 0; i < n; i++) v.push_back(row(i + 7 * k)); if (n > 100) { u.body(ev_sat(v).b); u.out.clear(); } else feed(c, u, r, ev_sat(v)); v.resize((size_t)std::min(n, 5)); feed(c, u, r, ev_sat(v)); }
static void view_values(Ctx &c) {
  int g = (int[]){0, 1, 2, 3, 5, 6, 4, 7}[c.choose(8, "system")], what = c.choose(4, "field"); c.leaf(); U u; Ref r; int lo = what == 0 ? 0 : what == 1 ? 0 : what == 2 ? -90 : 0, hi = what == 0 ? 255 : what == 1 ? 255 : what == 2 ? 90 : 360;
  if (g == 5 && what == 0) { lo = 1; hi = 10; }
  for (int x = lo; x <= hi; x++) { SatRow s = {g, g == 5 ? 3 : 12, 40, 33, 77}; (what == 0 ? s.sv : what == 1 ? s.cno : what == 2 ? s.elev : s.azim) = x; feed(c, u, r, ev_sat({row(2), s, row(3)})); }
}
// ------------------------------------------------------------------ forwarded and ignored messages; messages cut short
static void forwarded(Ctx &c) { size_t n = c.choose(600, "payload"); c.leaf(); U u; Ref r; feed(c, u, r, ev_fwd(n)); feed(c, u, r, ev_fwd(60)); }
static void ignored(Ctx &c) {
  int cls = c.choose(256, "class"); c.leaf(); U u; Ref r;
  for (int id = 0; id < 256; id++) { bool known = (cls == 0x10 && (id == 3 || id == 2)) || (cls == 0x28 && id == 0) || (cls == 1 && (id == 5 || id == 7 || id == 0x11 || id == 0x35 || id == 3)) || (cls == 2 && (id == 0x15 || id == 0x13)) || (cls == 0x0A && id == 9); if (known) continue;
    for (size_t n : {0, 4, 20, 92}) { Bytes b = {(uint8_t)cls, (uint8_t)id, (uint8_t)n, 0}; for (size_t i = 0; i < n; i++) b.push_back((uint8_t)(i * 5 + 1)); feed(c, u, r, ev_none(fmt("class %02x id %02x", cls, id), b)); } }
}
static std::vector<Ev> &everything() {
  static std::vector<Ev> E; if (E.empty()) {
    Msg p(S_pvt, 2), h(S_hnr, 2), a(S_att, 0), v(S_vel, 0), s(S_status, 0); p.set("fix_type", 4).set("flags", 0x43).set("i_tow", 1111000); h.set("i_tow", 1111100).set("heading_vehicle", 99); a.set("roll", 5).set("i_tow", 3); v.set("ecefVY", 77); s.set("fix_type", 3).set("status_flags", 0xD).set("i_tow", 1112000).set("msss", 70000);
    E = {ev_pvt(p), ev_hnr(h), ev_att(a), ev_vel(v), ev_status(s), ev_rawx(2111, 1111.5, 2), ev_raw(69900, sample(5)), ev_meas(69910, 8, {{6, 100, 0}, {11, 50, 0}}), ev_sbas(135, sbas_words(0x9A, 3, 4)), ev_sat({row(1), row(2), row(3), row(4)}), ev_fwd(28)};
  } return E;
}
static void cut(Ctx &c) {                                     // what follows is as if the cut message had not been there
  auto &E = everything(); int k = c.choose((uint32_t)E.size() - 1, "message"), before = c.choose(2, "after others"); c.leaf();
  for (size_t n = 0; n < E[(size_t)k].b.size(); n++) {
    if (k == 6 && (int)n > 0) {}
    U u; Ref r; if (before) for (auto &e : E) feed(c, u, r, e); Bytes b(E[(size_t)k].b.begin(), E[(size_t)k].b.begin() + (long)n);
    feed(c, u, r, ev_none(E[(size_t)k].name + fmt(" cut to %zu bytes", n), b)); for (int i = 0; i < 2; i++) for (auto &e : E) feed(c, u, r, e);
  }
}
// ------------------------------------------------------------------ all kinds together, as a byte stream too
static void together(Ctx &c) {
  auto &E = everything(); U u, v; Ref r; int n = c.thorough ? 5 : 4; std::vector<int> q; for (int i = 0; i < n; i++) q.push_back((int)c.choose((uint32_t)E.size(), "message")); c.leaf();
  Bytes s; Want w; for (int i : q) { feed(c, u, r, E[(size_t)i]); append(s, frame(E[(size_t)i].b)); }
  Ref r2; for (int i : q) E[(size_t)i].f(r2, w); size_t cutat = (size_t)q[0] * 7 + 3; v.stream(s, {cutat, 5, 1}); judge(c, v.out, w, 61568, "the stream");
}
int main(int argc, char **argv) {
  Spec s; s.property = "C26";
  s.rule = "Message histories and value grids are enumerated; every message the real converter sends is compared, field by field, with a reference model written from the u-blox and SBP interface descriptions.";
  s.assumptions = {"values that do not fit the SBP field after scaling (angles over 2147 degrees) are not judged", "wheel counts after a gap of more than a second may go on or start again", "satellites of unknown systems in NAV-SAT are not judged", "time functions of libswiftnav are stand-ins", "the week of a GNSS time offset is not judged when local time was reset or lies about half a week from the last inertial message"};
  s.scenarios = {{"solution", solution, 0, 0, false}, {"fields", fields, 0, 0, false}, {"navigation", navigation, 0, 0, false}, {"imu values", imu_values, 0, 0, false}, {"imu axes", imu_axes, 0, 0, false}, {"imu order", imu_order, 1, 2, false}, {"imu time", imu_time, 0, 0, false}, {"imu long", imu_long, 0, 0, false}, {"temperature", temperature, 0, 0, false},
    {"wheels", wheels, 0, 0, false}, {"wheel values", wheel_values, 0, 0, false}, {"wheel counts", wheel_counts, 0, 0, false}, {"offsets", offsets, 0, 0, false}, {"status flags", status_flags, 0, 0, false}, {"offset times", offset_times, 0, 0, false},
    {"sbas times", sbas_times, 0, 0, false}, {"sbas messages", sbas_messages, 0, 0, false}, {"sbas bits", sbas_bits, 0, 0, false}, {"view counts", view_counts, 0, 0, false}, {"view values", view_values, 0, 0, false}, {"forwarded", forwarded, 0, 0, false}, {"ignored", ignored, 0, 0, false}, {"cut", cut, 0, 0, false}, {"together", together, 0, 0, false}};
  return run(argc, argv, s);
}
