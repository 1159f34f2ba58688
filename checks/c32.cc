// C32: converter instances do not disturb each other, and start anew
#include "box.hpp"
#include "obsref.hpp"
#include "rtcmref.hpp"
#include "s2r.hpp"
#include "nmearef.hpp"
#include <map>
extern "C" {
#include <gnss-converters-extra/sbp_conv.h>
}
using namespace mc; using box::Box; using box::Kind;
extern "C" { extern uint8_t __start_libbss[] __attribute__((weak)), __stop_libbss[] __attribute__((weak)), __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak)); }
namespace {
using box::mixn;
// the variables of the code under test, as they were at the start (an execution must not find what an earlier one left)
Bytes kept[2];
__attribute__((no_sanitize("address"))) void swap_in(bool save) {
  uint8_t *a[2] = {__start_libbss, __start_libdata}, *z[2] = {__stop_libbss, __stop_libdata};
  for (int i = 0; i < 2; i++) if (a[i] && z[i] > a[i]) { size_t n = (size_t)(z[i] - a[i]); if (save) kept[i].resize(n); volatile uint8_t *p = a[i]; for (size_t k = 0; k < n; k++) if (save) kept[i][k] = p[k]; else if (p[k] != kept[i][k]) p[k] = kept[i][k]; }
}
// ------------------------------------------------------------------ RTCM -> SBP
struct REv { std::string name; Bytes b; int how; };          // how: 0 a message, 1 a piece of the stream, 2.. settings
std::vector<REv> &revents() {
  static std::vector<REv> v; if (v.empty()) {
    using namespace msmref; auto m = [](int cons, int kind, uint32_t t, bool more, int id) { Msg q; q.cons = cons; q.kind = kind; q.sat_mask = 1ull << (64 - id); q.sig_mask = 1u << 30; q.all_cells(); q.fill((uint32_t)(cons * 10 + id)); q.epoch = t; q.mult = more; q.stn = 9; return q.bytes(); };
    auto l = [](int num, uint32_t t, bool sync, int id, int code1) { obsref::Leg q; q.num = num; q.stn = 9; q.t = t; q.sync = sync; obsref::LegSat s; s.id = id; s.code1 = code1; s.fcn = id % 14; if (q.glo()) s.amb = 36; q.s.push_back(s); return q.bytes(); };
    auto glo = [](uint32_t t, bool day) { return (t - 18000 + 3 * 3600000u) % 86400000u | (day ? 5u << 27 : 0); };
    auto by = [](const rtcmref::Shape &s) { return s.bytes(s.defaults()); };
    const uint32_t T = 345600000; Bytes fr = rtcm_frame(m(GPS, 7, T, false, 7)), rest(fr.begin() + 9, fr.end()); fr.resize(9);
    BitW d; d.u(12, 1033); d.u(12, 9); auto t = [&](const std::string &s) { d.u(8, s.size()); for (char ch : s) d.u(8, (uint8_t)ch); }; t("ANT"); d.u(8, 3); t("2"); t("TRIMBLE NETR9"); t("FW"); t("1");
    v = {{"time", {}, 2}, {"1004 and more", l(1004, T, true, 3, 0), 0}, {"1012", l(1012, glo(T, false), false, 5, 0), 0}, {"MSM5 GLONASS", m(GLO, 5, glo(T, true), false, 6), 0}, {"MSM4 GLONASS", m(GLO, 4, glo(T, true), false, 6), 0}, {"channel of GLONASS 6", {}, 3}, {"GLONASS P code", l(1010, glo(T, false), false, 4, 1), 0}, {"MSM3", m(GPS, 3, T, false, 4), 0}, {"first part of a frame", fr, 1}, {"rest of a frame", rest, 1},
      {"1033", d.b, 0}, {"1230", by(rtcmref::m1230(15)), 0}, {"MSM7 GPS and more", m(GPS, 7, T, true, 9), 0}, {"1004 a second later", l(1004, T + 1000, false, 3, 0), 0}, {"1019", by(rtcmref::m1019()), 0}, {"1020", by(rtcmref::m1020(false)), 0}, {"1005", by(rtcmref::m1005()), 0}, {"1029", by(rtcmref::m1029(5, 5)), 0}};
    for (auto &s : rtcmref::ssr_shapes()) { int n = s.bytes(s.defaults()).size() > 2 ? s2r::number(by(s)) : 0; if (n == 1057 || n == 1058 || n == 1059 || n == 1060) v.push_back({fmt("%d %s", n, s.name.c_str()), by(s), 0}); }
    for (auto &s : rtcmref::other_shapes()) { int n = s2r::number(by(s)); if (n == 1042 || n == 1046 || n == 4062) v.push_back({fmt("%d", n), by(s), 0}); }
  } return v;
}
struct RBox : Box {
  conv::R2S r; uint8_t f; RBox(uint8_t fill) : r(fill), f(fill) {}
  void init() override { time_truth_init(&r.tt); r.init(); }
  std::string act(int e) override {
    auto &v = revents()[(size_t)e]; sbp_v4_gnss_signal_t s; s.sat = 6; s.code = CODE_GLO_L1OF;
    if (v.how == 0) r.payload(v.b); else if (v.how == 1) r.stream(v.b); else if (v.how == 2) r.know(2100, 345600); else rtcm2sbp_set_glo_fcn(s, 5, r.st());
    std::string o; for (auto &x : r.take()) o += conv::show(x) + "\n"; for (double x : r.stale) o += fmt("late %g\n", x); r.stale.clear(); return o;
  }
};
// ------------------------------------------------------------------ SBP -> RTCM, directly and through the handles
struct SEv { std::string name; int type; Bytes b; uint16_t sender; };
template <class T> Bytes raw(const T &x) { return Bytes((const uint8_t *)&x, (const uint8_t *)&x + sizeof x); }
std::vector<SEv> &sevents() {
  static std::vector<SEv> v; if (v.empty()) {
    using namespace s2r; const uint32_t T = 345600000; O a = make(5, CODE_GPS_L1CA, 2.2e7), b = make(6, CODE_GLO_L1OF, 2.1e7), g = make(9, CODE_GAL_E1B, 2.4e7);
    msg_base_pos_ecef_t pos = {-2704026.25, -4253051.5, 3895878.75}; msg_glo_biases_t bias = {15, 100, 200, 300, 400};
    msg_ephemeris_gps_t e; memset((void *)&e, 0, sizeof e); e.common.sid.sat = 5; e.common.toe.wn = 2100; e.common.toe.tow = 345600; e.common.ura = 2; e.common.fit_interval = 14400; e.common.valid = 1; e.toc = e.common.toe; e.sqrta = 5153.5; e.ecc = 0.01; e.iode = e.iodc = 7;
    msg_ephemeris_glo_t q; memset((void *)&q, 0, sizeof q); q.common.sid.sat = 6; q.common.sid.code = CODE_GLO_L1OF; q.common.toe.wn = 2100; q.common.toe.tow = 345600 + 18 + 900; q.common.ura = 5; q.common.fit_interval = 2400; q.common.valid = 1; q.pos[0] = 1e7; q.pos[1] = 2e7; q.pos[2] = 5e6; q.vel[0] = 3000; q.fcn = 11; q.iod = 3;
    v = {{"observations 1/2", SBP_MSG_OBS, obs_msg(T, 2100, 2, 0, {a, g}), 0x1042}, {"observations 2/2", SBP_MSG_OBS, obs_msg(T, 2100, 2, 1, {b, make(7, CODE_GPS_L1CA, 2.3e7)}), 0x1042}, {"observations a second later", SBP_MSG_OBS, obs_msg(T + 1000, 2100, 1, 0, {make(5, CODE_GPS_L1CA, 2.2e7 + 300)}), 0x1042}, {"position", SBP_MSG_BASE_POS_ECEF, raw(pos), 0x1042},
      {"GLONASS ephemeris", SBP_MSG_EPHEMERIS_GLO, raw(q), 0x1042}, {"GLONASS observations", SBP_MSG_OBS, obs_msg(T, 2100, 1, 0, {b, make(6, CODE_GLO_L2OF, 2.1e7)}), 0x1042}, {"biases", SBP_MSG_GLO_BIASES, raw(bias), 0x1042}, {"GPS ephemeris", SBP_MSG_EPHEMERIS_GPS, raw(e), 0x1042}, {"text", SBP_MSG_LOG, {6, 'h', 'e', 'y'}, 0x1042}, {"observations 1/2 of another", SBP_MSG_OBS, obs_msg(T, 2100, 2, 0, {make(8, CODE_GPS_L1CA, 2.2e7)}), 0x2042}, {"orbit and clock", SBP_MSG_SSR_ORBIT_CLOCK, Bytes(50, 3), 0x1042}};
  } return v;
}
const s2r::Cb cb_of(int type) { switch (type) { case SBP_MSG_OBS: return sbp2rtcm_sbp_obs_cb; case SBP_MSG_BASE_POS_ECEF: return sbp2rtcm_base_pos_ecef_cb; case SBP_MSG_EPHEMERIS_GLO: return sbp2rtcm_sbp_glo_eph_cb; case SBP_MSG_GLO_BIASES: return sbp2rtcm_glo_biases_cb; case SBP_MSG_EPHEMERIS_GPS: return sbp2rtcm_sbp_gps_eph_cb; case SBP_MSG_LOG: return sbp2rtcm_sbp_log_cb; default: return sbp2rtcm_sbp_ssr_orbit_clock_cb; } }
const char *SETTINGS[] = {"leap seconds", "MSM4", "older messages", "descriptors", "antenna height", "channel of GLONASS 6"};
struct SBox : Box {
  s2r::S2R r; SBox(uint8_t fill) : r(fill) {}
  void init() override { sbp2rtcm_init(r.st(), &s2r::S2R::out, &r); }
  std::string act(int e) override {
    auto &v = sevents(); int k = e - (int)v.size(); sbp_gnss_signal_t s; s.sat = 6; s.code = CODE_GLO_L1OF;
    if (k < 0) r.feed(cb_of(v[(size_t)e].type), v[(size_t)e].sender, v[(size_t)e].b); else if (k == 0) sbp2rtcm_set_leap_second(17, r.st()); else if (k == 1) sbp2rtcm_set_rtcm_out_mode(MSM4, r.st()); else if (k == 2) sbp2rtcm_set_rtcm_out_mode(MSM_UNKNOWN, r.st());
    else if (k == 3) sbp2rtcm_set_rcv_ant_descriptors("ANTENNA             ", "RECEIVER", r.st()); else if (k == 4) sbp2rtcm_set_ant_height(1.5, r.st()); else sbp2rtcm_set_glo_fcn(s, 5, r.st());
    std::string o; for (auto &f : r.take()) o += hex(f) + "\n"; return o;
  }
};
struct HBox : Box {
  sbp_conv_t h; HBox(uint8_t) : h(sbp_conv_new()) {}
  ~HBox() { sbp_conv_delete(h); }
  void init() override { sbp_conv_delete(h); h = sbp_conv_new(); }
  std::string act(int e) override {
    auto &v = sevents(); std::string o; uint8_t out[4096]; size_t n;
    if (e < (int)v.size()) { Bytes b = v[(size_t)e].b; n = sbp_conv(h, v[(size_t)e].sender, (uint16_t)v[(size_t)e].type, b.data(), b.size(), out, 40); }     // up to 40 bytes now, the rest later
    else n = sbp_conv(h, 0, 0, nullptr, 0, out, sizeof out);
    return hex(Bytes(out, out + (n <= sizeof out ? n : 0)));
  }
};
// ------------------------------------------------------------------ SBP -> NMEA
struct NBox : Box {
  int mode; nm::N n; NBox(int m, uint8_t fill) : mode(m), n(m) { memset((void *)n.st.get(), fill, sizeof(sbp2nmea_t)); init(); }
  void init() override { sbp2nmea_init(n.st.get(), (sbp2nmea_mode_t)mode, &nm::N::cb, &n); sbp2nmea_soln_freq_set(n.st.get(), 1.f); for (int k = 0; k < nm::KINDS; k++) sbp2nmea_rate_set(n.st.get(), 1, (sbp2nmea_nmea_id_t)k); }
  static nm::World world(int e) { nm::World w; w.tow = 1000u * (uint32_t)(e + 1); w.lat = 10 + e; w.vn = 1000 + 100 * e; w.heading = 1000u * (uint32_t)(e + 7); w.yaw = 12345 * (e + 3); w.min = 30 + e; w.age = 15 + e; w.pdop = 180 + e; w.used = {{0, 3 + e}, {3, 5}, {14, 9}}; w.view = {{{0, 3}, 20, 30}, {{3, 5 + e}, 40, 60}}; w.track = {{{0, 3}, 100}, {{3, 5}, 90}}; return w; }
  std::string act(int e) override {
    bool g = mode != SBP2NMEA_MODE_GNSS; nm::World w = world(e >= 14 && e < 19 ? 1 : 0);
    n.clear(); int way = mode == SBP2NMEA_MODE_FUSED ? 3 : mode == SBP2NMEA_MODE_BEST ? 1 : 0; if (e == 1) { w = world(2); w.vn = 3; w.ve = -2; sbp2nmea_cog_threshold_set(n.st.get(), 0.001f); } switch (e) {
      case 0: w = world(3); case 1: n.epoch(w, way); break; case 2: case 14: n.gps(w, g); n.utc(w, g); break; case 3: case 15: n.pos(w, g); break; case 4: n.vel(w, g); break; case 16: w.vn = 3; w.ve = -2; n.vel(w, g); break; case 5: case 17: n.dops(w); n.age(w); break; case 6: n.all_obs(w); break; case 19: n.hdg(w); break; case 20: n.view(w); n.track(w); break;
      case 7: n.obs(w.tow, w.wn, 2, 0, w.used.data(), 2); break; case 8: n.obs(w.tow, w.wn, 2, 1, w.used.data(), 1); break; case 9: case 18: n.group(); n.gps(w, false); n.utc(w, false); n.pos(w, false); n.vel(w, false); n.euler(w); n.meta(w); break; case 10: sbp2nmea_rate_set(n.st.get(), 0, SBP2NMEA_NMEA_GGA); break;
      case 11: sbp2nmea_base_id_set(n.st.get(), 55); break; case 12: sbp2nmea_cog_threshold_set(n.st.get(), 50.f); sbp2nmea_cog_stationary_threshold_set(n.st.get(), 40.f); break; default: sbp2nmea_soln_freq_set(n.st.get(), 10.f);
    }
    std::vector<std::string> v; v.swap(n.out); std::string o; for (auto &x : v) o += x; return o + fmt("%d observations, base %d", sbp2nmea_num_obs_get(n.st.get()), sbp2nmea_base_id_get(n.st.get()));
  }
};
const std::vector<std::string> NEV = {"an epoch", "a slow epoch, courses down to a millimetre a second", "time", "position", "velocity", "dops and age", "observations", "observations 1/2", "observations 2/2", "fused group", "no GGA", "base", "thresholds", "ten a second", "time of the next", "position of the next", "velocity of the next, slow", "dops and age of the next", "fused group of the next", "heading", "view"};
// ------------------------------------------------------------------
std::vector<Kind> &kinds() {
  static std::vector<Kind> v; if (v.empty()) {
    std::vector<std::string> r, s, h; for (auto &e : revents()) r.push_back(e.name); for (auto &e : sevents()) s.push_back(e.name); h = s; h.push_back("the rest"); for (auto x : SETTINGS) s.push_back(x);
    v = {{"RTCM to SBP", r, 10, [](uint8_t f) -> Box * { return new RBox(f); }}, {"SBP to RTCM", s, 8, [](uint8_t f) -> Box * { return new SBox(f); }}, {"handles", h, 7, [](uint8_t f) -> Box * { return new HBox(f); }}};
    v[2].core = 6; for (int m : {SBP2NMEA_MODE_BEST, SBP2NMEA_MODE_GNSS, SBP2NMEA_MODE_FUSED}) v.push_back({m == SBP2NMEA_MODE_BEST ? "NMEA, best" : m == SBP2NMEA_MODE_GNSS ? "NMEA, GNSS" : "NMEA, fused", NEV, 8, [m](uint8_t f) -> Box * { return new NBox(m, f); }});
    for (auto &k : box::ubx_kinds()) v.push_back(k);
  } return v;
}
// what an instance alone says to the last event of a history; remembered
uint64_t alone(size_t k, const std::vector<uint8_t> &h, uint8_t fill = 0) {
  static std::vector<std::map<std::vector<uint8_t>, uint64_t>> memo(16); if (!fill) { auto i = memo[k].find(h); if (i != memo[k].end()) return i->second; }
  std::string o; { swap_in(false); std::unique_ptr<Box> b(kinds()[k].make(fill)); for (uint8_t e : h) o = b->act(e); } uint64_t x = hash_str(o); if (!fill) memo[k][h] = x; return x;
}
std::string alone_text(size_t k, const std::vector<uint8_t> &h) { swap_in(false); std::unique_ptr<Box> b(kinds()[k].make(0)); std::string o; for (uint8_t e : h) o = b->act(e); return o; }
// a sequence of steps of up to two instances; -1: the instance is initialised again, -2: given up, and a new one made in other memory
struct Step { int who, ev; };
void play(Ctx &c, size_t k, const std::vector<Step> &seq) {
  auto &K = kinds()[k]; swap_in(false); std::unique_ptr<Box> b[2]; std::vector<uint8_t> h[2]; std::vector<std::string> out; std::vector<std::vector<uint8_t>> hist; std::string how = K.name;
  for (auto &s : seq) {
    if (!b[s.who]) b[s.who].reset(K.make(s.who ? 0xFF : 0xA5)); how += fmt("; %c %s", 'A' + s.who, s.ev == -1 ? "initialised again" : s.ev == -2 ? "given up" : K.events[(size_t)s.ev].c_str()); c.at("%s", how.c_str()); c.step();
    if (s.ev == -1) { b[s.who]->init(); h[s.who].clear(); out.push_back(""); } else if (s.ev == -2) { b[s.who].reset(); h[s.who].clear(); out.push_back(""); } else { h[s.who].push_back((uint8_t)s.ev); out.push_back(b[s.who]->act(s.ev)); }
    hist.push_back(h[s.who]);
  }
  for (size_t i = 0; i < seq.size(); i++) if (seq[i].ev >= 0) {
    uint64_t w = alone(k, hist[i]), g = hash_str(out[i]); c.traced(); c.state(mixn(k, w, hist[i].size(), (uint64_t)seq[i].ev));
    CHK(c, w == g, "%s: step %zu: %c says '%.300s', alone it says '%.300s'", how.c_str(), i + 1, 'A' + seq[i].who, out[i].c_str(), alone_text(k, hist[i]).c_str());
  }
}
void sequences(Ctx &c, int len, bool all) {
  size_t k = c.choose((uint32_t)kinds().size(), "converter"); int E = all ? (int)kinds()[k].events.size() : kinds()[k].core; std::vector<Step> s; bool b = false;
  for (int i = 0; i < len; i++) { int x = (int)c.choose((uint32_t)(i ? 2 * (E + 2) : E), "step"), who = x / (E + 2), ev = x % (E + 2); if (i == 0) { who = 0; ev = x; } s.push_back({who, ev == E ? -1 : ev == E + 1 ? -2 : ev}); b |= who == 1 || ev >= E; }
  c.leaf(); if (!b) return; play(c, k, s);
}
void core(Ctx &c) { sequences(c, c.thorough ? 5 : 4, false); }
void every(Ctx &c) { sequences(c, c.thorough ? 4 : 3, true); }
// one instance, memory of any content, the same answers
void memory(Ctx &c) {
  size_t k = c.choose((uint32_t)kinds().size(), "converter"); auto &K = kinds()[k]; int E = (int)K.events.size(); std::vector<uint8_t> h; int n = c.thorough ? 4 : 3; for (int i = 0; i < n; i++) h.push_back((uint8_t)c.choose((uint32_t)E, "event")); c.leaf();
  uint64_t w = alone(k, h); for (int f : {0xFF, 0x01, 0xA5}) { std::string how = K.name; for (auto e : h) how += "; " + K.events[e]; c.step(); c.at("%s in memory of %02x", how.c_str(), f); CHK(c, alone(k, h, (uint8_t)f) == w, "%s: in memory of %02x it says otherwise than in memory of zeros", how.c_str(), f); c.traced(); }
  c.state(mixn(k, w, 0, 0));
}
// A does something, then B everything there is, then A goes on; and: A did everything there is, is initialised again, and is as new
void crowd(Ctx &c) {
  size_t k = c.choose((uint32_t)kinds().size(), "converter"); auto &K = kinds()[k]; int E = (int)K.events.size(); int mode = (int)c.choose(3, "way"), a = (int)c.choose((uint32_t)E, "first"), z = (int)c.choose((uint32_t)E, "then"), rot = (int)c.choose((uint32_t)(c.thorough ? E : 3), "order"); c.leaf();
  std::vector<Step> s; if (mode == 0) s.push_back({0, a}); for (int i = 0; i < E; i++) s.push_back({mode == 0 ? 1 : 0, (i * (rot % 2 ? E - 1 : 1) + rot * 5) % E}); if (mode == 1) s.push_back({0, -1}); if (mode == 2) { s.push_back({1, a}); s.push_back({0, -2}); } if (mode == 1) s.push_back({0, a}); s.push_back({mode == 2 ? 1 : 0, z}); s.push_back({1, a}); s.push_back({0, z});
  play(c, k, s);
}
}  // namespace
int main(int argc, char **argv) {
  if (getenv("DBG")) { conv::all_constellations(); for (size_t k = 0; k < kinds().size(); k++) for (size_t e = 0; e < kinds()[k].events.size(); e++) { std::string all; std::unique_ptr<Box> b(kinds()[k].make(0)); for (int r = 0; r < 3; r++) for (size_t i = 0; i < kinds()[k].events.size(); i++) { std::string o = b->act((int)i); if (i == e) all += fmt("(%zu)", o.size()) + o.substr(0, 150) + "|"; } printf("%s / %s: %s\n", kinds()[k].name.c_str(), kinds()[k].events[e].c_str(), all.c_str()); } return 0; }
  conv::all_constellations(); kinds(); swap_in(true); Spec s; s.property = "C32";
  s.rule = "All sequences of steps (an event, initialising again, giving up) of two instances of each converter are enumerated; after every step, what an instance sends is compared with what an instance that is alone in the process' history since its start sends, in other memory.";
  s.assumptions = {"the option variables of the programs are shared by design", "one thread", "each RTCM converter instance has its own time truth"};
  s.scenarios = {{"core", core, 0, 0, false}, {"every", every, 0, 0, false}, {"memory", memory, 0, 0, false}, {"crowd", crowd, 0, 0, false}};
  return run(argc, argv, s);
}
