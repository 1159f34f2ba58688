// What the RTCM -> SBP converter must do with observation messages: an independent model of the epoch
// buffer, the arbitration between sources and the values of every measurement.
#pragma once
#include "conv.hpp"
#include "msmtab.hpp"
#include <algorithm>
#include <cmath>
namespace obsref {
using namespace mc; using msmref::Msg; using conv::Emit; using conv::R2S;
static const double C = 299792458.0;
static const int64_t DAY = 86400000ll, WEEK = 604800000ll;
struct Cell { int sat = 0, code = 0; bool hasP = false, hasL = false, hasD = false, half = false, opt = false; double P = 0, L = 0, D = 0, cn0 = -1, lock = -1; };
// ---- legacy messages
struct LegSat { int id = 1, code1 = 0, fcn = 7; int64_t pr = 1000000, ph = 12345, lock = 50, amb = 70, cnr = 160; int code2 = 0; int64_t pr2 = -300, ph2 = -5432, lock2 = 99, cnr2 = 120; };
struct Leg {
  int num = 1004; uint32_t stn = 0x123, t = 0; bool sync = false; std::vector<LegSat> s;
  bool glo() const { return num >= 1009; } bool l2() const { return num == 1003 || num == 1004 || num == 1011 || num == 1012; } bool ext() const { return num == 1002 || num == 1004 || num == 1010 || num == 1012; }
  Bytes bytes() const {
    BitW b; b.u(12, (uint64_t)num); b.u(12, stn); b.u(glo() ? 27 : 30, t); b.u(1, sync); b.u(5, s.size()); b.u(1, 0); b.u(3, 0);
    for (auto &x : s) {
      b.u(6, (uint64_t)x.id); b.u(1, (uint64_t)x.code1); if (glo()) b.u(5, (uint64_t)x.fcn); b.u(glo() ? 25 : 24, (uint64_t)x.pr); b.s(20, x.ph); b.u(7, (uint64_t)x.lock); if (ext()) { b.u(glo() ? 7 : 8, (uint64_t)x.amb); b.u(8, (uint64_t)x.cnr); }
      if (l2()) { b.u(2, (uint64_t)x.code2); b.s(14, x.pr2); b.s(20, x.ph2); b.u(7, (uint64_t)x.lock2); if (ext()) b.u(8, (uint64_t)x.cnr2); }
    }
    return b.b;
  }
};
inline std::vector<Cell> cells(const Leg &m) {
  std::vector<Cell> v;
  for (auto &x : m.s) {
    double L1 = 0.02 * (double)x.pr + (m.glo() ? 599584.916 : 299792.458) * (double)x.amb;
    for (int f = 0; f < (m.l2() ? 2 : 1); f++) {
      Cell c; bool vp = f ? x.pr2 != -8192 : x.pr != 0x80000, vc = (f ? x.ph2 : x.ph) != -524288; if (m.glo() && x.fcn > 20) vc = false;
      if (!vp || !vc) continue;
      c.opt = x.pr == 0x80000;   // second frequency relative to a missing first one: not asserted
      double hz; int sat = x.id, code;
      if (!m.glo()) {
        hz = f ? 1227.60e6 : 1575.42e6; int cd = f ? x.code2 : x.code1;
        if (sat >= 1 && sat <= 32) code = f ? (cd ? CODE_GPS_L2P : CODE_GPS_L2CM) : (cd ? CODE_GPS_L1P : CODE_GPS_L1CA);
        else if (sat >= 40 && sat <= 58 && !f) { code = CODE_SBAS_L1CA; sat += 80; } else continue;
      } else { hz = f ? 1246.0e6 + (x.fcn - 7) * 437500.0 : 1602.0e6 + (x.fcn - 7) * 562500.0; if (sat < 1 || sat > 24) continue; code = f ? CODE_GLO_L2OF : CODE_GLO_L1OF; }
      c.sat = sat; c.code = code; c.P = f ? L1 + 0.02 * (double)x.pr2 : L1; c.hasP = true; c.hasL = c.half = true; c.L = (L1 + 0.0005 * (double)(f ? x.ph2 : x.ph)) / (C / hz);
      int64_t n = f ? x.cnr2 : x.cnr; if (n) c.cn0 = 0.25 * (double)n; c.lock = msmref::lock7((uint32_t)(f ? x.lock2 : x.lock)); v.push_back(c);
    }
  }
  return v;
}
// ---- multi-signal messages
inline std::vector<Cell> cells(const Msg &m, const std::vector<int> &fcn_map /* by satellite, -1 unknown */) {
  using namespace msmref; std::vector<Cell> v; int ns = m.nsat(), ng = m.nsig(); W w = widths(m.kind); bool fine = m.kind >= 6; size_t k = 0; std::vector<int> si, gi;
  for (int i = 1; i <= 64; i++) if (m.sat_mask >> (64 - i) & 1) si.push_back(i);
  for (int i = 1; i <= 32; i++) if (m.sig_mask >> (32 - i) & 1) gi.push_back(i);
  for (int a = 0; a < ns; a++) for (int b = 0; b < ng; b++) if (m.cells[(size_t)(a * ng + b)]) {
    const Sig &g = m.sigs[k++]; const Sat &s = m.sats[(size_t)a]; Cell c; c.code = code_at(m.cons, gi[(size_t)b]); if (si[(size_t)a] > NUM[m.cons] || c.code == CODE_INVALID) continue;
    c.sat = FIRST[m.cons] + si[(size_t)a] - 1; bool skip = false;
    for (int x : {(int)CODE_GLO_L1P, (int)CODE_GLO_L2P, (int)CODE_BDS3_B1CI, (int)CODE_BDS3_B1CQ, (int)CODE_BDS3_B1CX, (int)CODE_BDS3_B7I, (int)CODE_BDS3_B7Q, (int)CODE_BDS3_B7X, (int)CODE_BDS3_B3I, (int)CODE_BDS3_B3Q, (int)CODE_BDS3_B3X}) if (c.code == x) skip = true;
    if (skip) continue;
    double rough = s.ms + s.mod / 1024.0; bool vr = s.ms != 255, vp = vr && g.pr != -(1ll << (w.pr - 1)), vc = vr && g.cp != -(1ll << (w.cp - 1)), vd = w.ext && s.rate != -8192 && g.rate != -16384;
    if (!vp) continue;
    double hz = mhz_at(m.cons, gi[(size_t)b]) * 1e6; bool vf = true;
    if (m.cons == GLO) { int f = w.ext ? (int)s.info : fcn_map[(size_t)c.sat]; vf = f >= 0 && f <= 13; hz += (f - 7) * (c.code == CODE_GLO_L1OF ? 562500.0 : 437500.0); }
    c.P = (rough + std::ldexp((double)g.pr, fine ? -29 : -24)) * C / 1000; c.hasP = true;
    c.hasL = vc && vf; c.L = (rough + std::ldexp((double)g.cp, fine ? -31 : -29)) * hz / 1000; c.half = c.hasL && !g.hca;
    c.D = -(s.rate + 0.0001 * g.rate) * hz / C; c.hasD = vd && vf && c.D >= -32768 && c.D < 32767;
    if (g.cnr) c.cn0 = fine ? g.cnr / 16.0 : g.cnr;
    c.lock = fine ? lock10(g.lock) : lock4(g.lock); if (!vc) c.lock = -2;   // lock of a missing phase: not asserted
    v.push_back(c);
  }
  return v;
}
// the lock indicators a converter may send for one lock time
inline bool lock_ok(double s, int ind) { if (s == -2) return true; if (s < 0) return ind == 0; int w = 0; for (double t = 0.032; w < 15 && s * (1 + 1e-9) >= t; t *= 2) w++; return ind == w; }
// one measurement against what was sent; empty if right
inline std::string differs(const Cell &c, const sbp_packed_obs_content_t &o) {
  if (c.opt) return "";
  const int CODE = 1, PHASE = 2, HALF = 4, DOPP = 8;
  bool neg = c.hasP && c.P < 0;
  if (((o.flags & CODE) != 0) != (c.hasP && !neg)) return fmt("code valid %d", o.flags & CODE);
  if (c.hasP && !neg && std::fabs(o.P - c.P * 50) > 0.5 + 1e-3) return fmt("P %u, expected %.3f", o.P, c.P * 50);
  if (((o.flags & PHASE) != 0) != c.hasL) return fmt("phase valid %d", (o.flags & PHASE) != 0);
  if (c.hasL) { if (((o.flags & HALF) != 0) != c.half) return fmt("half cycle known %d", (o.flags & HALF) != 0); double l = o.L.i + o.L.f / 256.0; if (std::fabs(l - c.L) > 0.5 / 256 + 1e-5) return fmt("L %.5f, expected %.5f", l, c.L); }
  else if (o.flags & HALF) return "half cycle known without phase";
  if (((o.flags & DOPP) != 0) != c.hasD) return fmt("Doppler valid %d", (o.flags & DOPP) != 0);
  if (c.hasD) { double d = o.D.i + o.D.f / 256.0; if (std::fabs(d - c.D) > 0.5 / 256 + 1e-6) return fmt("D %.5f, expected %.5f", d, c.D); }
  if (o.flags & 0xF0) return fmt("flags %02x", o.flags);
  if (c.cn0 < 0 ? o.cn0 != 0 : std::fabs(o.cn0 - std::min(c.cn0 * 4, 255.0)) > 0.5 + 1e-9) return fmt("C/N0 %u, expected %.3f", o.cn0, c.cn0 * 4);
  if (!lock_ok(c.lock, o.lock)) return fmt("lock %u for %.3f s", o.lock, c.lock);
  return "";
}
struct Epoch { uint16_t sender; int wn; uint32_t tow; std::vector<Cell> cells; };
struct Time { bool known = false; int64_t t = 0; };   // ms since the GPS epoch
struct Model {
  int64_t now; int leap; std::vector<Epoch> out; std::vector<bool> excluded = std::vector<bool>(CONSTELLATION_COUNT, false);
  std::vector<Cell> buf; int64_t bt = 0; uint16_t bs = 0; Time gps, glo, msm; std::vector<int> fcn = std::vector<int>(64, -1); bool stale = false;
  Model(int wn, int64_t tow_ms, int leap_s) : now(wn * WEEK + tow_ms), leap(leap_s) {}
  void flush() { if (!buf.empty()) out.push_back({bs, (int)(bt / WEEK), (uint32_t)(bt % WEEK), buf}); buf.clear(); bt = 0; }
  int64_t near(int64_t t, int64_t period) const { int64_t d = now - t, k = d / period; while (t + k * period < now - period / 2) k++; while (t + k * period > now + period / 2) k--; return t + k * period; }
  bool glo_time(uint32_t tod, int64_t &t) const {
    if (tod >= DAY) return false;   // the leap second of the day is not accepted
    t = near((int64_t)tod - 3 * 3600000ll + leap * 1000ll, DAY);
    auto sane = [&](int64_t ref) { return std::llabs(t - ref - leap * 1000ll) <= 30000; };
    return sane(now) || (gps.known && sane(gps.t));
  }
  void add(const std::vector<Cell> &v) { for (auto &c : v) if (!excluded[(size_t)code_to_constellation((code_t)c.code)] && buf.size() < 210) buf.push_back(c); }
  bool active(int64_t t) const { return msm.known && t - msm.t < 5000; }
  void feed(const Leg &m) {
    int64_t t; if (m.glo()) { if (m.t >= DAY || !glo_time(m.t, t)) return; } else { if (m.t >= WEEK) return; t = near(m.t, WEEK); }   // the day's leap second is not accepted in legacy messages
    if (!m.glo() && now - t >= 10000) stale = true;
    if (active(t)) return;
    Time &last = m.glo() ? glo : gps; if (last.known && t <= last.t) return;
    last.known = true; last.t = t; uint16_t s = conv::sender((int)m.stn);
    if (!buf.empty() && (t != bt || s != bs)) flush();
    bt = t; bs = s; add(cells(m)); if (!m.sync) flush();
  }
  void feed(const Msg &m) {
    bool use = m.kind >= 4 && m.cons != msmref::SBAS && m.cons != msmref::QZS; int64_t t = 0; uint32_t raw = m.epoch;
    if (use) {
      if (m.cons == msmref::GLO) { raw &= 0x7FFFFFF; use = glo_time(raw, t); }
      else {
        if (m.cons == msmref::BDS) { if (raw >= (1u << 30) - 14000) raw = (uint32_t)(WEEK - ((1u << 30) - raw)); use = raw < WEEK; raw = (uint32_t)((raw + 14000) % WEEK); }
        use = use && raw < WEEK; if (use) { t = near(raw, WEEK); if (now - t >= 10000) stale = true; }
      }
    }
    if (use && !gps.known && t % WEEK == 0) use = false;
    if (use) {
      if (!active(t) && !buf.empty() && bt == t) { buf.clear(); bt = 0; }   // the same epoch again, from the better source
      gps.known = glo.known = msm.known = true; gps.t = glo.t = msm.t = t; uint16_t s = conv::sender((int)m.stn);
      if (!buf.empty() && (t != bt || s != bs)) flush();
      bt = t; bs = s; add(cells(m, fcn));
    }
    if (!m.mult) flush();
  }
};
// what was sent since the last call, against the model; everything but observations and log messages is left to others
inline void compare(Ctx &c, Model &m, R2S &r, const char *how) {
  std::vector<Epoch> want; want.swap(m.out); std::vector<Emit> got = r.take(); size_t e = 0, i = 0;
  while (i < got.size()) {
    if (got[i].type != SbpMsgObs) { i++; continue; }
    auto &h = got[i].m.obs; int total = h.header.n_obs >> 4; uint16_t sd = got[i].sender; CHK(c, (h.header.n_obs & 15) == 0, "%s: a sequence starts with message %d of %d", how, h.header.n_obs & 15, total);
    if (h.n_obs == 0) { CHK(c, total == 1, "%s: empty message announces %d", how, total); i++; continue; }
    CHK(c, e < want.size(), "%s: unexpected observations at %d/%u from %04x, first %d/%d", how, h.header.t.wn, h.header.t.tow, sd, h.obs[0].sid.sat, h.obs[0].sid.code);
    Epoch &w = want[e++]; std::vector<sbp_packed_obs_content_t> o;
    for (int q = 0; q < total; q++, i++) {
      while (i < got.size() && got[i].type != SbpMsgObs) i++;
      CHK(c, i < got.size(), "%s: message %d of %d missing", how, q, total); auto &x = got[i].m.obs; c.traced();
      CHK(c, (x.header.n_obs & 15) == q && x.header.n_obs >> 4 == total, "%s: message %d of %d is numbered %d of %d", how, q, total, x.header.n_obs & 15, x.header.n_obs >> 4);
      CHK(c, got[i].sender == w.sender, "%s: sender %04x, expected %04x", how, got[i].sender, w.sender);
      CHK(c, x.header.t.wn == w.wn && x.header.t.tow == w.tow && x.header.t.ns_residual == 0, "%s: time %d/%u/%d, expected %d/%u", how, x.header.t.wn, x.header.t.tow, x.header.t.ns_residual, w.wn, w.tow);
      CHK(c, x.n_obs > 0 && x.n_obs <= 14, "%s: %d measurements in one message", how, x.n_obs); for (int z = 0; z < x.n_obs; z++) o.push_back(x.obs[z]);
    }
    auto key = [](int sat, int code) { return sat * 256 + code; };
    std::stable_sort(o.begin(), o.end(), [&](auto &a, auto &b) { return key(a.sid.sat, a.sid.code) < key(b.sid.sat, b.sid.code); });
    std::stable_sort(w.cells.begin(), w.cells.end(), [&](auto &a, auto &b) { return key(a.sat, a.code) < key(b.sat, b.code); });
    size_t a = 0; uint64_t hsh = 0;
    for (auto &x : w.cells) {
      bool here = a < o.size() && o[a].sid.sat == x.sat && o[a].sid.code == x.code; if (!here && x.opt) continue;
      CHK(c, here, "%s: satellite %d code %d missing%s", how, x.sat, x.code, a < o.size() ? fmt(", %d code %d sent", o[a].sid.sat, o[a].sid.code).c_str() : "");
      std::string d = differs(x, o[a]); CHK(c, d.empty(), "%s: satellite %d code %d: %s", how, x.sat, x.code, d.c_str()); hsh = mix(hsh, hash_bytes(&o[a], sizeof o[a])); a++; c.step();
    }
    CHK(c, a == o.size(), "%s: satellite %d code %d sent, not expected", how, o[a].sid.sat, o[a].sid.code); c.state(hsh);
  }
  CHK(c, e == want.size(), "%s: epoch %d/%u from %04x with %zu measurements was not sent", how, want[e].wn, want[e].tow, want[e].sender, want[e].cells.size());
}
// converter and model side by side
struct Pair {
  R2S r; Model m;
  Pair(int wn = 2100, int64_t tow = 345600000, int leap = 18) : m(wn, tow, leap) { conv::all_constellations(); r.know(wn, (double)tow / 1000); }
  template <class M> void feed(Ctx &c, const M &x, const char *how) { c.at("%s", how); m.feed(x); r.payload(x.bytes()); compare(c, m, r, how); c.step(); }
};
}  // namespace obsref
