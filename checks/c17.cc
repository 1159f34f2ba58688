// C17: SSR corrections to SBP: every field, the right satellite, orbit and clock only from one solution
#include "conv.hpp"

#include <algorithm>
#include <map>
using namespace mc; using namespace conv;
enum { GPS, SBAS, GLO, BDS, QZS, GAL };
enum { ORBIT, CLOCK, CODE, COMBINED, PHASE };
static const int CO[] = {GPS, GLO, GAL, BDS, QZS};
static const char *CN[] = {"GPS", "SBAS", "GLONASS", "BeiDou", "QZSS", "Galileo"}, *WN[] = {"orbit", "clock", "code biases", "combined", "phase biases"};
static int number(int cons, int what) {
  if (what == PHASE) return (int[]){1265, 0, 1266, 1270, 1268, 1267}[cons];
  return (int[]){1057, 0, 1063, 1258, 1246, 1240}[cons] + (what == ORBIT ? 0 : what == CLOCK ? 1 : what == CODE ? 2 : 3);
}
static const int L1[] = {CODE_GPS_L1CA, CODE_SBAS_L1CA, CODE_GLO_L1OF, CODE_BDS2_B1, CODE_QZS_L1CA, CODE_GAL_E1B};
struct Bias { int sig = 0, integer = 1, wl = 2, disc = 7; int v = -1000; };
struct Sat { int id = 1; int64_t iod = 0xA1, radial = -12345, along = 2345, cross = -3456, dr = 456, da = -567, dc = 678, c0 = -77777, c1 = 8888, c2 = -99999; int yaw = 300, yrate = -5; std::vector<Bias> b; };
struct Ssr {
  int cons = GPS, what = COMBINED; int64_t epoch = 345600; int interval = 2, multi = 0, datum = 0, iod = 9, prov = 0x7123, sol = 3, disp = 1, mw = 0; std::vector<Sat> s;
  Bytes bytes() const {
    BitW b; bool orb = what == ORBIT || what == COMBINED, clk = what == CLOCK || what == COMBINED; b.u(12, (uint64_t)number(cons, what)); b.u(cons == GLO ? 17 : 20, (uint64_t)epoch); b.u(4, (uint64_t)interval); b.u(1, (uint64_t)multi); if (orb) b.u(1, (uint64_t)datum);
    b.u(4, (uint64_t)iod); b.u(16, (uint64_t)prov); b.u(4, (uint64_t)sol); if (what == PHASE) { b.u(1, (uint64_t)disp); b.u(1, (uint64_t)mw); } b.u(6, s.size());
    for (auto &x : s) {
      b.u(cons == GLO ? 5 : cons == QZS ? 4 : 6, (uint64_t)x.id);
      if (orb) { if (cons == BDS) { b.u(10, 777); b.u(8, (uint64_t)x.iod); } else b.u(cons == GAL ? 10 : 8, (uint64_t)x.iod); b.s(22, x.radial); b.s(20, x.along); b.s(20, x.cross); b.s(21, x.dr); b.s(19, x.da); b.s(19, x.dc); }
      if (clk) { b.s(22, x.c0); b.s(21, x.c1); b.s(27, x.c2); }
      if (what == CODE) { b.u(5, x.b.size()); for (auto &q : x.b) { b.u(5, (uint64_t)q.sig); b.s(14, q.v); } }
      if (what == PHASE) { b.u(5, x.b.size()); b.u(9, (uint64_t)x.yaw); b.s(8, x.yrate); for (auto &q : x.b) { b.u(5, (uint64_t)q.sig); b.u(1, (uint64_t)q.integer); b.u(2, (uint64_t)q.wl); b.u(4, (uint64_t)q.disc); b.s(20, q.v); } }
    }
    return b.b;
  }
  std::string name() const { return fmt("%s %s", CN[cons], WN[what]); }
};
static int sat_of(int cons, int id) { return cons == QZS ? 192 + id : id; }
// the GPS second of the week for the epoch in these checks (the converter's time is in the same hour)
static const int64_t NOW = 345600;
static int64_t epoch_for(int cons, int64_t gps) { return cons == GLO ? (gps - 18 + 3 * 3600) % 86400 : cons == BDS ? gps - 14 : gps; }
static int64_t gps_for(int cons, int64_t e) { return cons == GLO ? NOW / 86400 * 86400 + (e - 3 * 3600 + 18 >= 43200 ? e - 3 * 3600 + 18 - 86400 : e - 3 * 3600 + 18) : cons == BDS ? e + 14 : e; }
static void header(Ctx &c, const std::string &how, const Emit &e, sbp_gps_time_sec_t t, sbp_v4_gnss_signal_t sid, int interval, int iod, const Ssr &m, const Sat &s) {
  CHK(c, e.sender == 0, "%s: sender %04x", how.c_str(), e.sender);
  CHK(c, t.wn == 2100 && (int64_t)t.tow == gps_for(m.cons, m.epoch), "%s: time %d/%u for epoch %lld", how.c_str(), t.wn, t.tow, (long long)m.epoch);
  CHK(c, sid.sat == sat_of(m.cons, s.id) && sid.code == L1[m.cons], "%s: satellite %d code %d for id %d", how.c_str(), sid.sat, sid.code, s.id);
  CHK(c, interval == m.interval && iod == m.iod, "%s: interval %d issue %d, expected %d %d", how.c_str(), interval, iod, m.interval, m.iod); c.traced();
}
// what one orbit and clock give, in any order of satellites
static void orbit_clock(Ctx &c, const std::string &how, std::vector<Emit> &got, const Ssr &o, const Ssr &k) {
  size_t n = 0; uint64_t h = 0;
  for (auto &s : o.s) for (auto &q : k.s) if (s.id == q.id) {
    size_t i = 0; while (i < got.size() && !(got[i].type == SbpMsgSsrOrbitClock && got[i].m.ssr_orbit_clock.sid.sat == sat_of(o.cons, s.id))) i++;
    CHK(c, i < got.size(), "%s: satellite %d missing", how.c_str(), s.id); auto &m = got[i].m.ssr_orbit_clock; header(c, how, got[i], m.time, m.sid, m.update_interval, m.iod_ssr, o, s);
    CHK(c, m.iod == s.iod, "%s: iod %u, expected %lld", how.c_str(), m.iod, (long long)s.iod);
    CHK(c, m.radial == s.radial && m.along == s.along && m.cross == s.cross, "%s: orbit %d %d %d, expected %lld %lld %lld", how.c_str(), m.radial, m.along, m.cross, (long long)s.radial, (long long)s.along, (long long)s.cross);
    CHK(c, m.dot_radial == s.dr && m.dot_along == s.da && m.dot_cross == s.dc, "%s: orbit rates %d %d %d, expected %lld %lld %lld", how.c_str(), m.dot_radial, m.dot_along, m.dot_cross, (long long)s.dr, (long long)s.da, (long long)s.dc);
    CHK(c, m.c0 == q.c0 && m.c1 == q.c1 && m.c2 == q.c2, "%s: clock %d %d %d, expected %lld %lld %lld", how.c_str(), m.c0, m.c1, m.c2, (long long)q.c0, (long long)q.c1, (long long)q.c2);
    h = mix(h, hash_str(show(got[i]))); got.erase(got.begin() + (long)i); n++;
  }
  CHK(c, got.empty(), "%s: unexpected %s", how.c_str(), show(got[0]).c_str()); c.state(h);
}
static void biases(Ctx &c, const std::string &how, std::vector<Emit> &got, const Ssr &m) {
  for (auto &s : m.s) {
    size_t k = 0; bool any = false; uint64_t h = 0;
    for (auto &e : got) {
      if (m.what == CODE) {
        if (e.type != SbpMsgSsrCodeBiases || e.m.ssr_code_biases.sid.sat != sat_of(m.cons, s.id)) continue;
        auto &x = e.m.ssr_code_biases; header(c, how, e, x.time, x.sid, x.update_interval, x.iod_ssr, m, s); CHK(c, !any, "%s: satellite %d twice", how.c_str(), s.id); any = true; CHK(c, x.n_biases == s.b.size(), "%s: %d biases of %zu", how.c_str(), x.n_biases, s.b.size());
        for (auto &b : s.b) { CHK(c, x.biases[k].code == b.sig && x.biases[k].value == b.v, "%s: bias %zu is %d:%d, expected %d:%d", how.c_str(), k, x.biases[k].code, x.biases[k].value, b.sig, b.v); k++; }
      } else {
        if (e.type != SbpMsgSsrPhaseBiases || e.m.ssr_phase_biases.sid.sat != sat_of(m.cons, s.id)) continue;
        auto &x = e.m.ssr_phase_biases; header(c, how, e, x.time, x.sid, x.update_interval, x.iod_ssr, m, s); CHK(c, !any || (k && k < s.b.size()), "%s: satellite %d sent once more", how.c_str(), s.id); any = true;
        CHK(c, x.dispersive_bias == m.disp && x.mw_consistency == m.mw && x.yaw == s.yaw && x.yaw_rate == s.yrate, "%s: flags %d %d yaw %d rate %d", how.c_str(), x.dispersive_bias, x.mw_consistency, x.yaw, x.yaw_rate);
        CHK(c, x.n_biases <= 30, "%s: %d biases in one message", how.c_str(), x.n_biases);
        for (int i = 0; i < x.n_biases; i++, k++) { CHK(c, k < s.b.size(), "%s: too many biases", how.c_str()); auto &b = s.b[k]; auto &y = x.biases[i]; CHK(c, y.code == b.sig && y.integer_indicator == b.integer && y.widelane_integer_indicator == b.wl && y.discontinuity_counter == b.disc && y.bias == b.v, "%s: bias %zu is %d %d %d %d %d", how.c_str(), k, y.code, y.integer_indicator, y.widelane_integer_indicator, y.discontinuity_counter, y.bias); }
      }
      h = mix(h, hash_str(show(e)));
    }
    CHK(c, any, "%s: satellite %d missing", how.c_str(), s.id); CHK(c, k == s.b.size(), "%s: %zu of %zu biases of satellite %d", how.c_str(), k, s.b.size(), s.id); c.state(h);
  }
  size_t ids = 0; for (auto &e : got) { int sat = e.type == SbpMsgSsrCodeBiases ? e.m.ssr_code_biases.sid.sat : e.type == SbpMsgSsrPhaseBiases ? e.m.ssr_phase_biases.sid.sat : -1; for (auto &s : m.s) if (sat_of(m.cons, s.id) == sat) { ids++; break; } }
  CHK(c, ids == got.size(), "%s: %zu unexpected messages", how.c_str(), got.size() - ids);
}
static void tell(Ctx &c, R2S &r, const Ssr &m, const std::string &how) {
  c.at("%s", how.c_str()); r.payload(m.bytes()); c.step(); auto got = r.take(); if (m.what == COMBINED) orbit_clock(c, how, got, m, m); else if (m.what == CODE || m.what == PHASE) biases(c, how, got, m); else CHK(c, got.empty(), "%s: %s", how.c_str(), show(got[0]).c_str());
}
// ---- one field at a time over its range
struct F { const char *name; std::function<void(Ssr &, int64_t)> set; std::function<int(const Ssr &)> width; bool sgn; std::function<bool(const Ssr &)> has; };
static const std::vector<F> &fields() {
  static std::vector<F> v; if (!v.empty()) return v;
  auto orb = [](const Ssr &m) { return m.what == COMBINED || m.what == ORBIT; }; auto clk = [](const Ssr &m) { return m.what == COMBINED || m.what == ORBIT /* sent as a pair */; }; auto code = [](const Ssr &m) { return m.what == CODE; }; auto ph = [](const Ssr &m) { return m.what == PHASE; }; auto all = [](const Ssr &) { return true; };
  auto W = [](int w) { return [w](const Ssr &) { return w; }; };
  v.push_back({"interval", [](Ssr &m, int64_t x) { m.interval = (int)x; }, W(4), false, all}); v.push_back({"issue", [](Ssr &m, int64_t x) { m.iod = (int)x; }, W(4), false, all}); v.push_back({"provider", [](Ssr &m, int64_t x) { m.prov = (int)x; }, W(16), false, all}); v.push_back({"solution", [](Ssr &m, int64_t x) { m.sol = (int)x; }, W(4), false, all});
  v.push_back({"multiple", [](Ssr &m, int64_t x) { m.multi = (int)x; }, W(1), false, all}); v.push_back({"datum", [](Ssr &m, int64_t x) { m.datum = (int)x; }, W(1), false, orb});
  v.push_back({"satellite", [](Ssr &m, int64_t x) { m.s[0].id = (int)x; if (m.s[1].id == x) m.s[1].id = 2; if (m.s[1].id == x) m.s[1].id = 3; }, [](const Ssr &m) { return m.cons == GLO ? 5 : m.cons == QZS ? 4 : 6; }, false, all});
  v.push_back({"epoch", [](Ssr &m, int64_t x) { m.epoch = epoch_for(m.cons, NOW - 1800 + x % 3600); }, W(12), false, all});
#define FS(n, e, w) v.push_back({n, [](Ssr &m, int64_t x) { m.s[1].e = x; }, W(w), true, orb});
  v.push_back({"iod", [](Ssr &m, int64_t x) { m.s[1].iod = x; }, [](const Ssr &m) { return m.cons == GAL ? 10 : 8; }, false, orb}); FS("radial", radial, 22) FS("along", along, 20) FS("cross", cross, 20) FS("radial rate", dr, 21) FS("along rate", da, 19) FS("cross rate", dc, 19) FS("c0", c0, 22) FS("c1", c1, 21) FS("c2", c2, 27)
#undef FS
  v.push_back({"signal", [](Ssr &m, int64_t x) { m.s[1].b[1].sig = (int)x; }, W(5), false, code}); v.push_back({"bias", [](Ssr &m, int64_t x) { m.s[1].b[1].v = (int)x; }, W(14), true, code});
  v.push_back({"signal", [](Ssr &m, int64_t x) { m.s[1].b[1].sig = (int)x; }, W(5), false, ph}); v.push_back({"bias", [](Ssr &m, int64_t x) { m.s[1].b[1].v = (int)x; }, W(20), true, ph}); v.push_back({"integer", [](Ssr &m, int64_t x) { m.s[1].b[1].integer = (int)x; }, W(1), false, ph}); v.push_back({"wide lane", [](Ssr &m, int64_t x) { m.s[1].b[1].wl = (int)x; }, W(2), false, ph});
  v.push_back({"discontinuity", [](Ssr &m, int64_t x) { m.s[1].b[1].disc = (int)x; }, W(4), false, ph}); v.push_back({"yaw", [](Ssr &m, int64_t x) { m.s[1].yaw = (int)x; }, W(9), false, ph}); v.push_back({"yaw rate", [](Ssr &m, int64_t x) { m.s[1].yrate = (int)x; }, W(8), true, ph}); v.push_back({"dispersive", [](Ssr &m, int64_t x) { m.disp = (int)x; }, W(1), false, ph}); v.push_back({"wide-lane consistency", [](Ssr &m, int64_t x) { m.mw = (int)x; }, W(1), false, ph});
  return v;
}
static Ssr sample(int cons, int what, int n, int nb = 3) {
  Ssr m; m.cons = cons; m.what = what; m.epoch = epoch_for(cons, NOW);
  for (int i = 0; i < n; i++) { Sat s; s.id = i + 1; int64_t z = i + 1; s.iod = 0x90 + i % 32; s.radial *= z; s.along *= z; s.cross *= z; s.dr *= z; s.da *= z; s.dc *= z; s.c0 *= z % 20; s.c1 *= z; s.c2 *= z; s.yaw = (300 + i) % 512; s.yrate -= i % 100; for (int j = 0; j < nb; j++) { Bias b; b.sig = j; b.v = -1000 + 17 * j + i; b.integer = j & 1; b.wl = j % 4; b.disc = j % 16; s.b.push_back(b); } m.s.push_back(s); }
  return m;
}
static void values(Ctx &c) {
  int cons = CO[c.choose(5, "constellation")], what = (int[]){COMBINED, CODE, PHASE, ORBIT}[c.choose(4, "message")]; Ssr m = sample(cons, what, 2); std::vector<const F *> v; for (auto &f : fields()) if (f.has(m)) v.push_back(&f);
  auto &f = *v[c.choose((uint32_t)v.size(), "field")]; int w = f.width(m); std::vector<int64_t> x; bool full = false; int64_t lo = f.sgn ? -(1ll << (w - 1)) : 0, hi = f.sgn ? (1ll << (w - 1)) - 1 : (1ll << w) - 1;
  if (w <= 12 || (c.thorough && w <= 16)) full = true; else { for (int64_t d = 0; d < 3; d++) { x.push_back(lo + d); x.push_back(hi - d); } for (int b = 0; b < w - 1; b++) { for (int64_t s : {1, -1}) { if (s < 0 && !f.sgn) continue; x.push_back(s * (1ll << b)); x.push_back(s * ((1ll << b) - 1)); x.push_back(s * ((1ll << b) + 1)); } } x.push_back(0); }
  int64_t val = full ? lo + c.choose((uint32_t)(hi - lo + 1), "value") : x[c.choose((uint32_t)x.size(), "value")]; if (val < lo || val > hi) return; bool first = false; if (what == ORBIT) first = c.choose(2, "clock first");
  if (!strcmp(f.name, "satellite") && val == 0) return;   // not a satellite
  f.set(m, val); std::string how = fmt("%s, %s %lld", m.name().c_str(), f.name, (long long)val); R2S r; r.know(2100, (double)NOW);
  if (what != ORBIT) { tell(c, r, m, how); return; }
  Ssr k = m; k.what = CLOCK; c.at("%s", how.c_str()); r.payload((first ? k : m).bytes()); CHK(c, r.out.empty(), "%s: sent before its counterpart", how.c_str()); r.payload((first ? m : k).bytes()); c.step(); auto g = r.take(); orbit_clock(c, how, g, m, k);
}
// ---- which satellites appear in which message, in which order
static void satellites(Ctx &c) {
  int n = c.thorough ? 6 : 5; uint32_t a = c.choose(1u << n, "in the orbits"), b = c.choose(1u << n, "in the clocks"); int oa = (int)c.choose(3, "order"), ob = (int)c.choose(3, "order"); bool first = c.choose(2, "clock first"); int cons = CO[(a * 7 + b) % 5];
  auto take = [&](uint32_t mask, int ord, int what) { Ssr all = sample(cons, what, n), m = all; m.s.clear(); for (int i = 0; i < n; i++) if (mask >> i & 1) m.s.push_back(all.s[(size_t)i]); if (ord == 1) std::reverse(m.s.begin(), m.s.end()); if (ord == 2 && m.s.size() > 1) std::rotate(m.s.begin(), m.s.begin() + 1, m.s.end()); return m; };
  Ssr o = take(a, oa, ORBIT), k = take(b, ob, CLOCK); R2S r; r.know(2100, (double)NOW); std::string how = fmt("%s orbits %02x order %d, clocks %02x order %d, %s first", CN[cons], a, oa, b, ob, first ? "clock" : "orbit"); c.at("%s", how.c_str());
  r.payload((first ? k : o).bytes()); CHK(c, r.out.empty(), "%s: sent early", how.c_str()); r.payload((first ? o : k).bytes()); c.step(); auto g = r.take(); orbit_clock(c, how, g, o, k);
}
static void sizes(Ctx &c) {
  int cons = CO[c.choose(5, "constellation")]; int cap = cons == GLO ? 31 : cons == QZS ? 15 : 63, na = (int)c.choose((uint32_t)cap + 1, "orbits"), nb = (int)c.choose((uint32_t)cap + 1, "clocks"); if (!c.thorough && na != cap && nb != cap && na != nb && na % 7 && nb % 7) return; bool first = c.choose(2, "clock first");
  Ssr o = sample(cons, ORBIT, na), k = sample(cons, CLOCK, nb); std::reverse(k.s.begin(), k.s.end()); R2S r; r.know(2100, (double)NOW); std::string how = fmt("%s %d orbits, %d clocks", CN[cons], na, nb); c.at("%s", how.c_str()); r.payload((first ? k : o).bytes()); r.payload((first ? o : k).bytes()); c.step(); auto g = r.take(); orbit_clock(c, how, g, o, k);
}
static void counts(Ctx &c) {
  int cons = CO[c.choose(5, "constellation")], what = (int[]){CODE, PHASE, COMBINED}[c.choose(3, "message")], n = (int)c.choose(4, "satellites"), nb = (int)c.choose(32, "biases"), nc = (int)c.choose(32, "biases of the second");
  if (what == COMBINED) { int cap = cons == GLO ? 31 : cons == QZS ? 15 : 63; n = nb * 4 / 2 % (cap + 1); if (nc) return; }
  Ssr m = sample(cons, what, n, nb); if (n > 1 && what != COMBINED) { m.s[1].b = sample(cons, what, 1, nc).s[0].b; } else if (nc) return; R2S r; r.know(2100, (double)NOW); tell(c, r, m, fmt("%s, %d satellites with %d and %d biases", m.name().c_str(), n, nb, nc));
}
// ---- sequences
struct It { int cons, what, de, iod, prov, sol; bool cut; };
static const std::vector<It> &menu(bool wide) {
  static std::vector<It> a, w; if (a.empty()) {
    for (int what : {ORBIT, CLOCK}) { for (int de : {0, 1}) for (int iod : {9, 10}) a.push_back({GPS, what, de, iod, 1, 1, false}); a.push_back({GPS, what, 0, 9, 2, 1, false}); a.push_back({GPS, what, 0, 9, 1, 2, false}); a.push_back({GAL, what, 0, 9, 1, 1, false}); a.push_back({GPS, what, 0, 9, 1, 1, true}); }
    a.push_back({GPS, COMBINED, 0, 9, 1, 1, false}); a.push_back({GPS, CODE, 0, 9, 1, 1, false});
    w = a; for (int what : {ORBIT, CLOCK}) { w.push_back({GLO, what, 0, 9, 1, 1, false}); w.push_back({GPS, what, -1, 9, 1, 1, false}); } w.push_back({QZS, ORBIT, 0, 9, 1, 1, false}); w.push_back({BDS, CLOCK, 0, 9, 1, 1, false}); }
  return wide ? w : a;
}
static void sequence(Ctx &c, int len, bool wide) {
  auto &v = menu(wide); R2S r; r.know(2100, (double)NOW); std::string how; std::map<int, Ssr> cache; int multi = (int)c.choose(3, "more follow"); if (multi) multi = multi == 1 ? 31 : 10;
  for (int k = 0; k < len; k++) {
    auto &i = v[c.choose((uint32_t)v.size(), "message")]; Ssr m = sample(i.cons, i.what, 2, 1); m.epoch += i.de; m.iod = i.iod; m.prov = i.prov; m.sol = i.sol; m.multi = multi >> k & 1; for (auto &s : m.s) { s.radial += k; s.c0 += k; }
    how += fmt("%s%s%s%s epoch %+d issue %d of %d/%d", k ? ", " : "", i.cut ? "cut " : "", m.multi ? "multiple " : "", m.name().c_str(), i.de, i.iod, i.prov, i.sol); c.at("%s", how.c_str()); Bytes b = m.bytes(); if (i.cut) b.resize(b.size() - 2); r.payload(b); c.step(); auto g = r.take();
    if (i.cut) { CHK(c, g.empty(), "%s: sent", how.c_str()); continue; }
    if (i.what == COMBINED) { orbit_clock(c, how, g, m, m); continue; } if (i.what == CODE) { biases(c, how, g, m); continue; }
    auto it = cache.find(i.cons); if (it != cache.end() && it->second.what != m.what && it->second.epoch == m.epoch && it->second.iod == m.iod && it->second.prov == m.prov && it->second.sol == m.sol) { Ssr o = m.what == ORBIT ? m : it->second, q = m.what == ORBIT ? it->second : m; cache.erase(it); orbit_clock(c, how, g, o, q); }
    else { cache[i.cons] = m; CHK(c, g.empty(), "%s: unexpected %s", how.c_str(), show(g[0]).c_str()); }
  }
}
static void sequences(Ctx &c) { sequence(c, c.thorough ? 5 : 4, false); }
static void sequences_wide(Ctx &c) { sequence(c, c.thorough ? 4 : 3, true); }
int main(int argc, char **argv) {
  Spec s; s.property = "C17"; s.rule = "every field of every correction message over its range, every pair of satellite subsets and orders of an orbit and a clock message, all message sizes, all bias counts, all sequences of orbit, clock, combined and truncated messages of several epochs, issues, providers and constellations";
  s.assumptions = {"each satellite appears once in a message", "the newest orbit or clock message of a constellation is the one waiting for its counterpart", "orbit and clock must have the same epoch, issue, provider and solution; the update interval of the orbit message is reported"};
  s.scenarios = {{"values", values}, {"satellites", satellites}, {"sizes", sizes}, {"counts", counts}, {"sequences", sequences}, {"sequences, wide", sequences_wide}};
  return run(argc, argv, s);
}
