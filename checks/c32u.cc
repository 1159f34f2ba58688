// C32, the u-blox and iXCOM side (their interface headers do not go with librtcm's)
#include "box.hpp"
#include "ixpipe.hpp"
#include "ubxpipe.hpp"
using namespace mc; using namespace ubxref;
namespace {
using box::mixn;
// subframe n of a GPS satellite, issue of data i
Bytes gps_page(int prn, int n, int i) {
  std::vector<uint32_t> w = {0x8Bu << 22 | 0x155, (uint32_t)(1000 + n) << 13 | (uint32_t)n << 8};
  for (int k = 3; k <= 10; k++) { uint32_t x = (uint32_t)(mixn((uint64_t)prn, (uint64_t)n, (uint64_t)i, (uint64_t)k) >> 20) & 0x3FFFFFFF; if ((n == 1 && k == 8) || (n == 2 && k == 3) || (n == 3 && k == 10)) x = (x & 0x3FFFFF) | (uint32_t)i << 22; w.push_back(x); }
  static Shape s = rxm_sfrbx(10); Raw r = {0, (uint64_t)prn, 0, 5, 10, 0, 2, 0}; for (auto x : w) r.push_back(x); return s.bytes(r);
}
bool on_eph(int kind, const void *v, double tot, const utc_params_t *, ephemeris_t *e) { const uint32_t *w = (const uint32_t *)v; uint32_t h = 0; for (int i = 0; i < (kind == 0 ? 24 : 4); i++) h = h * 31 + w[i]; e->ura = 2; e->fit_interval = 14400; e->toe.wn = 2100; e->toe.tow = h % 604800; (void)tot; return true; }
Bytes rawx(double tow, int wn, int leap, bool known, int n) {
  Shape s = rxm_rawx(n); auto d = [](double v) { uint64_t r; memcpy(&r, &v, 8); return r; }; auto f = [](float v) { uint32_t r; memcpy(&r, &v, 4); return (uint64_t)r; };
  Raw w = {d(tow), (uint64_t)wn, (uint64_t)leap, (uint64_t)n, known ? 1u : 0u, 1, 0, 0}; for (int i = 0; i < n; i++) for (uint64_t v : {d(2.1e7 + 1000 * i), d(1.1e8 + i), f(123.5f), (uint64_t)0, (uint64_t)(3 + i), (uint64_t)0, (uint64_t)0, (uint64_t)(500 + i), (uint64_t)40, (uint64_t)0, (uint64_t)0, (uint64_t)0, (uint64_t)7, (uint64_t)0}) w.push_back(v);
  return s.bytes(w);
}
Bytes esf_raws(uint32_t t, std::vector<std::pair<int, uint32_t>> it) { Shape s = esf_raw((int)it.size()); Raw r = {t}; for (auto &i : it) { r.push_back((uint64_t)(uint32_t)i.first << 24 | (i.second & 0xFFFFFF)); r.push_back(t); } return s.bytes(r); }
Bytes wheel(uint32_t tag, int type, uint32_t v) { Shape s = esf_meas(1, 8); Raw r = {5678, (uint64_t)(1 << 11 | 8), 7, (uint64_t)(uint32_t)type << 24 | v, tag}; return s.bytes(r); }
Bytes fixed(Shape s, std::vector<std::pair<const char *, uint64_t>> set) { Raw r = s.pattern(2); for (auto &p : set) for (size_t i = 0; i < s.f.size(); i++) if (s.f[i].name == p.first) r[i] = p.second; return s.bytes(r); }
struct UBox : box::Box {
  ubxpipe::U u; UBox(uint8_t f) : u(f) {}
  void init() override { ubx_sbp_init(u.st(), &ubxpipe::U::cb, &u); }
  std::string act(int e) override;
};
struct UEv { std::string name; Bytes b; int how; };         // how: 0 a message, 1 a piece of the stream, 2.. a setting
std::vector<UEv> &uevents() {
  static std::vector<UEv> v; if (v.empty()) {
    std::vector<std::pair<int, uint32_t>> six = {{14, 100}, {13, 200}, {5, 300}, {16, 4000}, {17, 5000}, {18, 6000}}, warm = six; warm.insert(warm.begin(), {12, 2500}); Bytes fr = ubxref::frame(esf_raws(70100, six)), f2(fr.begin() + 20, fr.end()); fr.resize(20);
    v = {{"NAV-PVT", fixed(nav_pvt(), {{"fix_type", 4}, {"flags", 0x43}, {"i_tow", 1111000}}), 0}, {"RXM-RAWX", rawx(1111.5, 2111, 18, true, 2), 0}, {"ESF-RAW", esf_raws(69900, six), 0}, {"wheel ticks", wheel(69910, 8, 100), 0},
      {"GPS subframe 1", gps_page(5, 1, 60), 0}, {"GPS subframe 2", gps_page(5, 2, 60), 0}, {"GPS subframe 3", gps_page(5, 3, 60), 0}, {"first part of a frame", fr, 1}, {"rest of a frame", f2, 1}, {"NAV-STATUS", fixed(nav_status(), {{"fix_type", 3}, {"status_flags", 0xD}, {"i_tow", 1112000}, {"msss", 70000}}), 0},
      {"high rate on", {}, 2}, {"HNR-PVT", fixed(hnr_pvt(), {{"i_tow", 1111100}}), 0}, {"NAV-ATT", fixed(nav_att(), {}), 0}, {"NAV-VELECEF", fixed(nav_velecef(), {}), 0}, {"sender", {}, 3}, {"ESF-RAW with temperature", esf_raws(70900, warm), 0}, {"wheel ticks later", wheel(70410, 8, 130), 0}, {"speed", wheel(70420, 11, 900), 0}, {"subframe 2 of another", gps_page(9, 2, 60), 0}, {"RXM-RAWX next", rawx(1112.5, 2111, 17, true, 1), 0}};
  } return v;
}
std::string UBox::act(int e) {
  auto &v = uevents()[(size_t)e]; if (v.how == 0) u.body(v.b); else if (v.how == 1) u.stream(v.b); else if (v.how == 2) ubx_set_hnr_flag(u.st(), true); else ubx_set_sender_id(u.st(), 0x1234);
  std::string s; for (auto &o : u.take()) s += ubxpipe::show(o) + "\n"; return s;
}
struct XBox : box::Box {
  ix::X x; XBox(uint8_t f) : x(f) {}
  void init() override { ixcom_sbp_init(x.st(), &ix::X::cb, &x); }
  std::string act(int e) override {
    static std::vector<Bytes> m; if (m.empty()) {
      uint32_t a[6], b[6]; for (int i = 0; i < 6; i++) { a[i] = ix::fbits(0.5f * (float)i); b[i] = ix::fbits(-0.25f * (float)i); } ix::Head h; h.sec = 1001; Bytes c = ix::imu(b, h), d(c.begin() + 17, c.end()); c.resize(17); Bytes bad = ix::imu(a); bad[30] ^= 4;
      m = {ix::imu(a), ix::wheel(ix::fbits(12.5f), 77), c, d, bad, {}, ix::wheel(ix::fbits(-3.f), 70, h), ix::imu(b, h)};
    }
    if (e == 5) ixcom_set_sender_id(x.st(), 0x4321); else x.stream(m[(size_t)e]);
    std::string s; for (auto &o : x.take()) s += ix::show(o) + "\n"; return s;
  }
};
}  // namespace
std::vector<box::Kind> box::ubx_kinds() {
  shim_on_eph = &on_eph; std::vector<std::string> u; for (auto &e : uevents()) u.push_back(e.name);
  return {{"u-blox", u, 9, [](uint8_t f) -> Box * { return new UBox(f); }}, {"iXCOM", {"IMU", "wheel", "first part of IMU", "rest of IMU", "damaged IMU", "sender", "wheel later", "IMU later"}, 8, [](uint8_t f) -> Box * { return new XBox(f); }}};
}
