// The SBP -> RTCM converter as a closed box: feed SBP messages, collect and take apart the RTCM frames it sends.
#pragma once
#include "mc.hpp"
#include "msmtab.hpp"
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
extern "C" {
#include <gnss-converters-extra/sbp_rtcm3.h>
}
namespace s2r {
using namespace mc;
static const int64_t DAY = 86400000ll, WEEK = 604800000ll;
static const double C = 299792458.0;
typedef void (*Cb)(u16, u8, const u8 *, rtcm3_out_state *);
struct S2R {
  std::unique_ptr<rtcm3_out_state> mem; std::vector<Bytes> frames; long empty = 0;
  S2R(uint8_t fill = 0xA5) : mem(new rtcm3_out_state) { memset((void *)mem.get(), fill, sizeof(rtcm3_out_state)); sbp2rtcm_init(mem.get(), &S2R::out, this); }
  S2R(const S2R &) = delete;
  rtcm3_out_state *st() { return mem.get(); }
  static s32 out(u8 *b, u16 n, void *ctx) { S2R *r = (S2R *)ctx; if (n == 0) r->empty++; r->frames.push_back(Bytes(b, b + n)); return n; }
  // the message lives in an allocation of exactly its length
  void feed(Cb cb, uint16_t sender, const uint8_t *p, size_t n) { std::unique_ptr<uint8_t[]> q(new uint8_t[n]); if (n) memcpy(q.get(), p, n); cb(sender, (u8)n, q.get(), st()); }
  void feed(Cb cb, uint16_t sender, const Bytes &b) { feed(cb, sender, b.data(), b.size()); }
  std::vector<Bytes> take() { std::vector<Bytes> v; v.swap(frames); return v; }
};
struct BitR { const Bytes &b; size_t p = 0; BitR(const Bytes &x) : b(x) {}
  uint64_t u(int n) { uint64_t v = 0; while (n--) { v = v << 1 | (p / 8 < b.size() ? (b[p / 8] >> (7 - p % 8)) & 1 : 0); p++; } return v; }
  int64_t s(int n) { uint64_t v = u(n); return v >> (n - 1) & 1 ? (int64_t)(v | ~0ull << n) : (int64_t)v; } };
// payload of a frame; empty if the frame is not a correct one
inline Bytes unframe(Ctx &c, const Bytes &f, const char *how) {
  bool ok = f.size() >= 8 && f[0] == 0xD3 && f[1] < 4 && (size_t)((f[1] & 3) << 8 | f[2]) == f.size() - 6;
  if (ok) { uint32_t crc = ref_crc24q(f.data(), f.size() - 3); ok = f[f.size() - 3] == (crc >> 16 & 255) && f[f.size() - 2] == (crc >> 8 & 255) && f[f.size() - 1] == (crc & 255); }
  CHK(c, ok, "%s: %zu bytes that are no RTCM frame: %s", how, f.size(), hex(f).c_str()); c.traced();
  return ok ? Bytes(f.begin() + 3, f.end() - 3) : Bytes();
}
inline int number(const Bytes &p) { return p.size() < 2 ? 0 : p[0] << 4 | p[1] >> 4; }
// ---- an SBP observation
struct O { uint32_t P = 1000000000; int32_t Li = 0; uint8_t Lf = 0; int16_t Di = 0; uint8_t Df = 0, cn0 = 160, lock = 9, flags = 15; uint8_t sat = 1, code = 0; };
static const int NOCONS = -1;
inline int cons_of(int code, int *id = nullptr) { for (int k = 0; k < 6; k++) for (auto &s : msmref::SIGNALS[k]) if (s.code == code) { if (id) *id = s.id; return k; } return NOCONS; }
inline double hz_of(int code, int fcn /* 0..13, 7 is channel 0 */) { int id = 0, k = cons_of(code, &id); if (k < 0) return 0; double f = msmref::mhz_at(k, id) * 1e6; if (k == msmref::GLO) f += (fcn - 7) * (code == CODE_GLO_L1OF || code == CODE_GLO_L1P ? 562500.0 : 437500.0); return f; }
// phase and Doppler that belong to the range, so that everything fits the messages
inline O make(int sat, int code, double range, int fcn = 7, double rate = 123.4567, double off = 20.0) {
  O o; o.sat = (uint8_t)sat; o.code = (uint8_t)code; o.P = (uint32_t)std::llround(range * 50); double hz = hz_of(code, fcn); if (hz == 0) hz = 1575.42e6;
  double l = (range + off) * hz / C, d = -rate * hz / C; o.Li = (int32_t)std::floor(l); o.Lf = (uint8_t)((l - std::floor(l)) * 256); o.Di = (int16_t)std::floor(d); o.Df = (uint8_t)((d - std::floor(d)) * 256);
  o.cn0 = (uint8_t)(140 + sat % 40); o.lock = (uint8_t)((sat + code) % 16); return o;
}
inline void put(Bytes &b, uint64_t v, int n) { while (n--) { b.push_back((uint8_t)v); v >>= 8; } }
inline Bytes obs_msg(uint32_t tow, int wn, int size, int idx, const std::vector<O> &v) {
  Bytes b; put(b, tow, 4); put(b, 0, 4); put(b, (uint64_t)wn, 2); b.push_back((uint8_t)(size << 4 | idx));
  for (auto &o : v) { put(b, o.P, 4); put(b, (uint32_t)o.Li, 4); b.push_back(o.Lf); put(b, (uint16_t)o.Di, 2); b.push_back(o.Df); b.push_back(o.cn0); b.push_back(o.lock); b.push_back(o.flags); b.push_back(o.sat); b.push_back(o.code); }
  return b;
}
// ---- what must come out
struct Epoch { uint16_t sender; uint32_t tow; std::vector<O> obs; };
enum Mode { LEGACY, M4, M5 };
struct Model {
  Mode mode = M5; bool leap_known = false; int leap = 0; int fcn[256]; uint16_t sender = 0; std::vector<O> buf; uint32_t tow = 0; int wn = 0, size = 0, idx = 0; std::vector<Epoch> out;
  Model() { for (int &f : fcn) f = -1; }
  void flush() { if (!buf.empty()) out.push_back({sender, tow, buf}); buf.clear(); }
  void feed(uint16_t sd, uint32_t t, int w, int sz, int ix, const std::vector<O> &v) {
    if (t >= WEEK) return;
    if (sd != sender) { flush(); sender = sd; }
    if (!buf.empty()) {
      int64_t dt = (int64_t)t - tow + (w - wn) * WEEK; if (dt < 0) return;
      if (dt > 0) flush(); else if (sz != size || ix <= idx) { flush(); return; }
    }
    for (auto &o : v) if ((o.flags & 1) && !(o.flags & 0x80) && buf.size() < 210) buf.push_back(o);
    tow = t; wn = w; size = sz; idx = ix; if (ix + 1 == sz) flush();
  }
  uint32_t glo_tow(uint32_t t) const { return (uint32_t)((((int64_t)t + 3 * 3600000 - leap * 1000ll) % WEEK + WEEK) % WEEK); }
};
// MSM4 and MSM5 of one epoch
inline void msm_epoch(Ctx &c, const Model &m, const Epoch &e, const std::vector<Bytes> &f, size_t &i, const char *how) {
  using namespace msmref; struct Set { std::vector<int> sats, ids; std::vector<const O *> obs; }; Set want[6];
  auto has = [](const std::vector<int> &v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); };
  auto ok = [&](const O &o, int &k, int &id) { k = cons_of(o.code, &id); return k >= 0 && o.sat >= FIRST[k] && o.sat < FIRST[k] + NUM[k] && (k != GLO || m.leap_known); };
  for (auto &o : e.obs) { int k, id; if (!ok(o, k, id)) continue; Set &s = want[k]; bool ns = !has(s.sats, o.sat), ng = !has(s.ids, id);
    if ((s.sats.size() + ns) * (s.ids.size() + ng) > 64) continue; if (ns) s.sats.push_back(o.sat); if (ng) s.ids.push_back(id); }
  int left = 0; for (auto &o : e.obs) { int k, id; if (ok(o, k, id) && has(want[k].sats, o.sat) && has(want[k].ids, id)) want[k].obs.push_back(&o); }
  for (auto &s : want) left += !s.obs.empty();
  bool seen[6] = {false}; bool rate = m.mode == M5; uint64_t h = 0;
  for (; left > 0; left--, i++) {
    CHK(c, i < f.size(), "%s: %d messages of the epoch at %u are missing", how, left, e.tow); if (i >= f.size()) return;
    Bytes p = unframe(c, f[i], how); if (p.empty()) return; BitR r(p); int num = (int)r.u(12), stn = (int)r.u(12), k = -1; for (int q = 0; q < 6; q++) if (base(q) + (rate ? 5 : 4) == num) k = q;
    CHK(c, k >= 0 && !want[k].obs.empty() && !seen[k], "%s: message %d is not expected for the epoch at %u", how, num, e.tow); if (k < 0) return; seen[k] = true;
    CHK(c, stn == (e.sender & 0xFFF), "%s: %d: station %03x, sender is %04x", how, num, stn, e.sender);
    uint32_t t = (uint32_t)r.u(30), wt = e.tow; if (k == BDS) wt = (uint32_t)((e.tow + WEEK - 14000) % WEEK); if (k == GLO) { uint32_t g = m.glo_tow(e.tow); wt = (uint32_t)(g / DAY) << 27 | (uint32_t)(g % DAY); }
    CHK(c, t == wt, "%s: %d: time %u, expected %u for %u", how, num, t, wt, e.tow);
    int mult = (int)r.u(1); CHK(c, mult == (left > 1), "%s: %d: multiple message bit is %d with %d messages left", how, num, mult, left - 1);
    uint64_t rest = r.u(3) << 7 | r.u(7); int clk = (int)r.u(2), ext = (int)r.u(2), dv = (int)r.u(1), sm = (int)r.u(3); CHK(c, rest == 0 && ext == 0 && dv == 0 && sm == 0 && clk < 3, "%s: %d: header flags", how, num);
    uint64_t sm64 = r.u(64); uint32_t sg = (uint32_t)r.u(32); std::vector<int> sats, ids; for (int q = 0; q < 64; q++) if (sm64 >> (63 - q) & 1) sats.push_back(FIRST[k] + q); for (int q = 1; q <= 32; q++) if (sg >> (32 - q) & 1) ids.push_back(q);
    std::vector<int> a = want[k].sats, b = want[k].ids; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    CHK(c, sats == a && ids == b, "%s: %d: %zu satellites, %zu signals announced, expected %zu and %zu", how, num, sats.size(), ids.size(), a.size(), b.size()); if (sats != a || ids != b) return;
    std::vector<std::pair<int, int>> cell; for (int s : sats) for (int g : ids) if (r.u(1)) cell.push_back({s, g});
    size_t n = sats.size(), q = cell.size(); std::vector<int> ms(n), info(n, 0), mod(n), rr(n, 0); std::vector<int64_t> pr(q), cp(q), dr(q, 0); std::vector<int> lk(q), hc(q), cn(q);
    for (auto &x : ms) x = (int)r.u(8);
    if (rate) for (auto &x : info) x = (int)r.u(4);
    for (auto &x : mod) x = (int)r.u(10);
    if (rate) for (auto &x : rr) x = (int)r.s(14);
    for (auto &x : pr) x = r.s(15);
    for (auto &x : cp) x = r.s(22);
    for (auto &x : lk) x = (int)r.u(4);
    for (auto &x : hc) x = (int)r.u(1);
    for (auto &x : cn) x = (int)r.u(6);
    if (rate) for (auto &x : dr) x = r.s(15);
    CHK(c, (r.p + 7) / 8 == p.size(), "%s: %d: %zu bytes, %zu announced by its masks", how, num, p.size(), (r.p + 7) / 8);
    std::map<std::pair<int, int>, std::vector<const O *>> byid; for (auto *o : want[k].obs) { int id = 0; cons_of(o->code, &id); byid[{o->sat, id}].push_back(o); }
    CHK(c, byid.size() == q, "%s: %d: %zu measurements sent of %zu", how, num, q, byid.size());
    for (size_t z = 0; z < q; z++) {
      auto it = byid.find(cell[z]); CHK(c, it != byid.end(), "%s: %d: measurement of satellite %d signal %d was not observed", how, num, cell[z].first, cell[z].second); if (it == byid.end()) return;
      size_t si = (size_t)(std::find(sats.begin(), sats.end(), cell[z].first) - sats.begin()); std::string why; int fc = k == GLO ? m.fcn[cell[z].first] : 7;
      if (rate && k == GLO) CHK(c, info[si] == (fc < 0 ? 15 : fc), "%s: %d: satellite %d is sent with extended information %d", how, num, cell[z].first, info[si]);
      // several observations of one signal: any of them
      for (auto *o : it->second) {
        why.clear(); double rough = ms[si] + mod[si] / 1024.0; bool vr = ms[si] != 255; double hz = hz_of(o->code, fc < 0 ? 7 : fc); bool vf = fc >= 0;
        double P = o->P / 50.0, ph = o->Li + o->Lf / 256.0, D = o->Di + o->Df / 256.0, Lm = vf ? ph / hz * 1000 : 0, Pm = P * 1000 / C, dv2 = vf ? -D * C / hz : 0;
        bool gp = vr && pr[z] != -16384, gc = vr && cp[z] != -(1 << 21), gd = rate && rr[si] != -8192 && dr[z] != -16384;
        bool wp = true, wc = vf && (o->flags & 2), wd = rate && vf && (o->flags & 8);
        double dp = Pm - rough, dc = Lm - rough, dd = dv2 - rr[si];   // distance to the rough value of the satellite
        bool fp = Pm < 254.9 && std::fabs(dp) < 0.00097, fcp = std::fabs(dc) < 0.0039, fd = std::fabs(dv2) < 8190 && std::fabs(dd) < 1.637;
        if (gp != wp && (fp || gp)) why += fmt(" range %s", gp ? "valid" : "invalid");
        if (gp && wp && std::fabs(rough + std::ldexp((double)pr[z], -24) - Pm) > std::ldexp(1.0, -25) + 1e-12) why += fmt(" range %.4f m, observed %.4f", (rough + std::ldexp((double)pr[z], -24)) * C / 1000, P);
        if (gc != wc && (fcp || gc) && !(wc && Pm >= 254.9)) why += fmt(" phase %s", gc ? "valid" : "invalid");
        if (gc && wc && std::fabs(rough + std::ldexp((double)cp[z], -29) - Lm) > std::ldexp(1.0, -30) + 1e-12) why += fmt(" phase %.5f cycles, observed %.5f", (rough + std::ldexp((double)cp[z], -29)) * hz / 1000, ph);
        if (gd != wd && (fd || gd)) why += fmt(" rate %s", gd ? "valid" : "invalid");
        if (gd && wd && std::fabs(rr[si] + 1e-4 * (double)dr[z] - dv2) > 0.5e-4 + 1e-9) why += fmt(" rate %.5f, observed %.5f", rr[si] + 1e-4 * (double)dr[z], dv2);
        if (wc && gc && hc[z] != !(o->flags & 4)) why += fmt(" half-cycle indicator %d", hc[z]);
        if (lk[z] != (o->lock & 15)) why += fmt(" lock %d, observed %d", lk[z], o->lock);
        if (o->cn0 / 4.0 <= 63 && std::fabs(cn[z] - o->cn0 / 4.0) > 0.5) why += fmt(" C/N0 %d, observed %.2f", cn[z], o->cn0 / 4.0);
        if (why.empty()) break;
      }
      CHK(c, why.empty(), "%s: %d: satellite %d signal %d:%s", how, num, cell[z].first, cell[z].second, why.c_str()); c.step();
    }
    h = mix(h, hash_bytes(p.data(), p.size()));
  }
  c.state(h);
}
// 1004 and 1012 of one epoch
inline void legacy_epoch(Ctx &c, const Model &m, const Epoch &e, const std::vector<Bytes> &f, size_t &i, const char *how) {
  struct Sat { int id; std::vector<const O *> o[2]; }; std::vector<Sat> want[2];
  for (auto &o : e.obs) {
    int g, fr; if (o.code == CODE_GPS_L1CA || o.code == CODE_GPS_L1P) g = 0, fr = 0; else if (o.code == CODE_GPS_L2CM || o.code == CODE_GPS_L2P) g = 0, fr = 1; else if (o.code == CODE_GLO_L1OF || o.code == CODE_GLO_L1P) g = 1, fr = 0; else if (o.code == CODE_GLO_L2OF || o.code == CODE_GLO_L2P) g = 1, fr = 1; else continue;
    if (o.sat < 1 || o.sat > (g ? NUM_SATS_GLO : NUM_SATS_GPS) || (g && (!m.leap_known || m.fcn[o.sat] < 0))) continue;
    Sat *s = nullptr; for (auto &x : want[g]) if (x.id == o.sat) s = &x;
    if (!s) { if (fr) continue; want[g].push_back({o.sat, {}}); s = &want[g].back(); }
    s->o[fr].push_back(&o);
  }
  for (int g = 0; g < 2; g++) {
    if (want[g].empty()) continue;
    CHK(c, i < f.size(), "%s: message %d of the epoch at %u is missing", how, g ? 1012 : 1004, e.tow); if (i >= f.size()) return;
    Bytes p = unframe(c, f[i++], how); if (p.empty()) return; BitR r(p); int num = (int)r.u(12), stn = (int)r.u(12);
    CHK(c, num == (g ? 1012 : 1004), "%s: message %d, expected %d", how, num, g ? 1012 : 1004); if (num != (g ? 1012 : 1004)) return;
    CHK(c, stn == (e.sender & 0xFFF), "%s: %d: station %03x, sender is %04x", how, num, stn, e.sender);
    uint32_t t = (uint32_t)r.u(g ? 27 : 30), wt = g ? (uint32_t)(m.glo_tow(e.tow) % DAY) : e.tow; CHK(c, t == wt, "%s: %d: time %u, expected %u for %u", how, num, t, wt, e.tow);
    int sync = (int)r.u(1), n = (int)r.u(5); r.u(4); CHK(c, sync == (g == 0 && !want[1].empty()), "%s: %d: synchronous flag %d", how, num, sync);
    size_t w = 0; auto &v = want[g]; int sent = 0;
    for (int z = 0; z < n; z++) {
      int id = (int)r.u(6), code1 = (int)r.u(1), fcn = g ? (int)r.u(5) : 7; int64_t pr = (int64_t)r.u(g ? 25 : 24), ph = r.s(20); int lk = (int)r.u(7), amb = (int)r.u(g ? 7 : 8), cn = (int)r.u(8), code2 = (int)r.u(2); int64_t pr2 = r.s(14), ph2 = r.s(20); int lk2 = (int)r.u(7), cn2 = (int)r.u(8);
      // satellites come in the order of their first observation; those whose first frequency cannot be sent are left out
      for (; w < v.size() && v[w].id != id; w++) for (auto *o : v[w].o[0]) CHK(c, !((o->flags & 6) == 6 && o->P / 50.0 < (g ? 127 * 599584.916 : 255 * 299792.458)), "%s: %d: satellite %d is missing", how, num, v[w].id);
      CHK(c, w < v.size(), "%s: %d: satellite %d is not expected", how, num, id); if (w >= v.size()) return; Sat &s = v[w++]; sent++;
      if (g) CHK(c, fcn == m.fcn[id], "%s: %d: satellite %d on channel %d, expected %d", how, num, id, fcn, m.fcn[id]);
      double unit = g ? 599584.916 : 299792.458, L1 = pr * 0.02 + amb * unit; std::string why; const O *first = nullptr;
      for (auto *o : s.o[0]) {
        why.clear(); double P = o->P / 50.0, hz = hz_of(o->code, m.fcn[id]), ph_m = (o->Li + o->Lf / 256.0) * C / hz; bool wc = (o->flags & 6) == 6;
        // 1 in the code indicator is P code; a GLONASS P code is a known finding, told by the caller
        if (!g && code1 != (o->code == CODE_GPS_L1P)) why += fmt(" code indicator %d", code1);
        if (std::fabs(pr * 0.02 - 0x80000 * 0.02) > 0.011 && std::fabs(L1 - P) > 0.0101) why += fmt(" range %.3f, observed %.3f", L1, P);
        if ((ph != -524288) != wc) why += fmt(" phase %s", wc ? "invalid" : "valid");
        double off = L1 + ph * 0.0005 - ph_m, lam = C / hz; if (wc && std::fabs(std::remainder(off, 1500 * lam)) > 0.00026) why += fmt(" phase %.4f m, observed %.4f", L1 + ph * 0.0005, ph_m);
        if (wc && std::fabs(ph_m - L1) < 262 && std::fabs(off) > 0.00026) why += fmt(" phase %.4f m, observed %.4f", L1 + ph * 0.0005, ph_m);
        double t = msmref::lock4(o->lock & 15); int q = 0; for (int x = 0; x < 128; x++) if (msmref::lock7((uint32_t)x) <= t) q = x; if (lk != q) why += fmt(" lock %d, expected %d", lk, q);
        if (cn != o->cn0) why += fmt(" C/N0 %d, observed %d", cn, o->cn0);
        if (why.empty()) { first = o; break; }
      }
      CHK(c, why.empty(), "%s: %d: satellite %d L1:%s", how, num, id, why.c_str());
      if (g && first && first->code == CODE_GLO_L1P && code1 == 0) c.fail("glonass-l1-p-code", "%s: 1012: satellite %d: a P-code observation is sent as C/A", how, id); else if (g && first) CHK(c, code1 == (first->code == CODE_GLO_L1P), "%s: 1012: satellite %d code indicator %d", how, id, code1);
      if (s.o[1].empty()) { CHK(c, pr2 == -8192 && ph2 == -524288 && cn2 == 0, "%s: %d: satellite %d has no second frequency, but %lld/%lld/%d are sent", how, num, id, (long long)pr2, (long long)ph2, cn2); }
      else {
        for (auto *o : s.o[1]) {
          why.clear(); double P = o->P / 50.0, hz = hz_of(o->code, m.fcn[id]), ph_m = (o->Li + o->Lf / 256.0) * C / hz; bool wc = (o->flags & 6) == 6, wp = true; double d = P - L1;
          if (code2 != (o->code == CODE_GPS_L2P || o->code == CODE_GLO_L2P)) why += fmt(" code indicator %d", code2);
          if (pr2 == -8192 && std::fabs(d) < 163.75) why += " range invalid";
          if (pr2 != -8192 && wp && std::fabs(L1 + 0.02 * pr2 - P) > 0.0101) why += fmt(" range %.3f, observed %.3f", L1 + 0.02 * pr2, P);
          if ((ph2 != -524288) != wc) why += fmt(" phase %s", wc ? "invalid" : "valid");
          double off = L1 + ph2 * 0.0005 - ph_m, lam = C / hz; if (wc && std::fabs(std::remainder(off, 1500 * lam)) > 0.00026) why += fmt(" phase %.4f m, observed %.4f", L1 + ph2 * 0.0005, ph_m);
          if (wc && std::fabs(ph_m - L1) < 262 && std::fabs(off) > 0.00026) why += fmt(" phase %.4f m, observed %.4f", L1 + ph2 * 0.0005, ph_m);
          double t = msmref::lock4(o->lock & 15); int q = 0; for (int x = 0; x < 128; x++) if (msmref::lock7((uint32_t)x) <= t) q = x; if (lk2 != q) why += fmt(" lock %d, expected %d", lk2, q);
          if (cn2 != o->cn0) why += fmt(" C/N0 %d, observed %d", cn2, o->cn0);
          if (why.empty()) break;
        }
        CHK(c, why.empty(), "%s: %d: satellite %d L2:%s", how, num, id, why.c_str());
      }
      c.step();
    }
    if (sent < 31) for (; w < v.size(); w++) for (auto *o : v[w].o[0]) CHK(c, !((o->flags & 6) == 6 && o->P / 50.0 < (g ? 127 * 599584.916 : 255 * 299792.458)), "%s: %d: satellite %d is missing", how, num, v[w].id);
    CHK(c, (r.p + 7) / 8 == p.size(), "%s: %d: %zu bytes, %zu announced", how, num, p.size(), (r.p + 7) / 8); c.state(hash_bytes(p.data(), p.size()));
  }
}
// converter and model side by side
struct Pair {
  S2R r; Model m;
  Pair(Mode mode = M5, bool leap_known = true, int leap = 18, uint8_t fill = 0xA5) : r(fill) {
    m.mode = mode; m.leap_known = leap_known; m.leap = leap; if (leap_known) sbp2rtcm_set_leap_second((s8)leap, r.st()); sbp2rtcm_set_rtcm_out_mode(mode == LEGACY ? MSM_UNKNOWN : mode == M4 ? MSM4 : MSM5, r.st());
  }
  // SBP numbers channels -7..6 as 1..14
  void glo(int sat, int fcn /* 0..13 */) { sbp_gnss_signal_t sid; sid.sat = (u8)sat; sid.code = CODE_GLO_L1OF; sbp2rtcm_set_glo_fcn(sid, (u8)(fcn + 1), r.st()); m.fcn[sat] = fcn; }
  void all_glo() { for (int s = 1; s <= NUM_SATS_GLO; s++) glo(s, (s * 5 + 3) % 14); }
  void settle(Ctx &c, const char *how) {
    std::vector<Epoch> w; w.swap(m.out); std::vector<Bytes> f = r.take(); size_t i = 0;
    for (auto &e : w) { if (m.mode == LEGACY) legacy_epoch(c, m, e, f, i, how); else msm_epoch(c, m, e, f, i, how); }
    CHK(c, i >= f.size(), "%s: an unexpected message %d of %zu bytes was sent", how, i < f.size() ? (f[i].size() > 5 ? f[i][3] << 4 | f[i][4] >> 4 : 0) : 0, i < f.size() ? f[i].size() : 0);
  }
  void feed(Ctx &c, uint16_t sender, uint32_t tow, int wn, int size, int idx, const std::vector<O> &v, const char *how) {
    c.at("%s", how); m.feed(sender, tow, wn, size, idx, v); r.feed(&sbp2rtcm_sbp_obs_cb, sender, obs_msg(tow, wn, size, idx, v)); settle(c, how); c.step();
  }
};
}  // namespace s2r
