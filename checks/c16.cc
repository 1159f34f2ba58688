// C16: when the same information arrives from two sources, one of them is used
#include "obsref.hpp"
using namespace mc; using namespace obsref; using namespace msmref;
static uint32_t raw_time(int cons, int64_t t) {
  if (cons == GLO) return (uint32_t)((5u << 27) | (uint32_t)((t - 18000 + 3 * 3600000ll) % DAY));
  if (cons == BDS) t -= 14000; return (uint32_t)(t % WEEK);
}
static uint64_t bit(int id) { return 1ull << (64 - id); }
static Msg msm(int cons, int kind, int64_t t, uint64_t sats, bool more, uint32_t seed) { Msg m; m.cons = cons; m.kind = kind; m.sat_mask = sats; m.sig_mask = 1u << 30; m.all_cells(); m.fill(seed); m.epoch = raw_time(cons, t); m.mult = more; m.stn = 9; return m; }
static Leg leg(int num, int64_t t, bool sync, std::vector<int> ids) { Leg l; l.num = num; l.stn = 9; l.t = raw_time(num >= 1009 ? GLO : GPS, t) & (num >= 1009 ? 0x7FFFFFF : ~0u); l.sync = sync; for (int id : ids) { LegSat s; s.id = id; s.pr += 777 * id; s.fcn = id % 14; if (l.glo()) s.amb = 36; l.s.push_back(s); } return l; }
// ---- multi-signal and legacy observations
static const char *SRC[] = {"1004", "1012", "MSM7 GPS", "MSM5 GLONASS", "1002", "MSM4 Galileo", "MSM3 GPS", "MSM7 QZSS", "1010", "MSM6 BeiDou", "cut MSM7 GPS", "MSM7 GPS without satellites"};
static Bytes one(int s, int64_t t, bool more, Pair &p, int k) {
  int a = 1 + k * 2; Msg m; Leg l; bool isleg = false;
  switch (s) {
    case 0: l = leg(1004, t, more, {a, a + 1}); isleg = true; break; case 1: l = leg(1012, t, more, {a, a + 1}); isleg = true; break; case 4: l = leg(1002, t, more, {a}); isleg = true; break; case 8: l = leg(1010, t, more, {a}); isleg = true; break;
    case 3: m = msm(GLO, 5, t, bit(a), more, 3); break; case 5: m = msm(GAL, 4, t, bit(a), more, 5); break; case 6: m = msm(GPS, 3, t, bit(a), more, 6); break; case 7: m = msm(QZS, 7, t, bit(1), more, 7); break; case 9: m = msm(BDS, 6, t, bit(a), more, 9); break;
    case 11: m = msm(GPS, 7, t, 0, more, 1); m.sig_mask = 0; break;
    default: m = msm(GPS, 7, t, bit(a), more, 2);
  }
  if (s == 10) { Bytes b = m.bytes(); b.resize(12); return b; }
  if (isleg) { p.m.feed(l); return l.bytes(); }
  p.m.feed(m); return m.bytes();
}
static void timeline(Ctx &c, int len, int nsrc, const std::vector<int> &gaps, bool mores) {
  Pair p(2100, 345600000); int64_t t = 2100ll * WEEK + 345600000; std::string how;
  for (int k = 0; k < len; k++) {
    int s = (int)c.choose((uint32_t)nsrc, "message"), g = gaps[c.choose((uint32_t)gaps.size(), "gap")]; bool more = mores && c.choose(2, "more follow"); t += g; how += fmt("%s%s%s at +%lld ms", k ? ", " : "", SRC[s], more ? " (more follow)" : "", (long long)(t - 2100ll * WEEK - 345600000)); c.at("%s", how.c_str());
    int64_t now = t / 1000 * 1000; if (now > p.m.now) { p.r.know((int)(now / WEEK), (double)(now % WEEK) / 1000); p.m.now = now; }
    Bytes b = one(s, t, more, p, k); p.r.payload(b); compare(c, p.m, p.r, how.c_str()); c.step();
  }
  p.r.stale.clear();
}
static void silence(Ctx &c) { timeline(c, c.thorough ? 4 : 3, 12, c.thorough ? std::vector<int>{0, 1000, 4999, 5000} : std::vector<int>{0, 1000, 4000, 4999, 5000, 5001, 6000}, false); }
static void silence_long(Ctx &c) { timeline(c, c.thorough ? 6 : 5, 4, c.thorough ? std::vector<int>{0, 1000, 4999, 5000} : std::vector<int>{0, 2500, 5000}, false); }
static void mixed(Ctx &c) { timeline(c, c.thorough ? 4 : 3, 6, {0, 200, 5000}, true); }
// a reference station that sends both, for a while, losing messages: never two answers for an epoch
static void both(Ctx &c) {
  int rate = (int[]){1000, 200, 5000, 2500}[c.choose(4, "interval")], n = 8; uint32_t lost = c.choose(256, "lost multi-signal epochs"); bool first = c.choose(2, "legacy first"); int glo = (int)c.choose(3, "constellations"); int64_t t0 = 2100ll * WEEK + (c.choose(2, "end of week") ? 604799000 : 345600000); Pair p((int)(t0 / WEEK), t0 % WEEK);
  std::string how = fmt("every %d ms, multi-signal lost at %02x, %s first", rate, lost, first ? "legacy" : "multi-signal");
  for (int k = 0; k < n; k++) {
    int64_t t = t0 + (int64_t)k * rate; int64_t now = t / 1000 * 1000; if (now > p.m.now) { p.r.know((int)(now / WEEK), (double)(now % WEEK) / 1000); p.m.now = now; }
    std::string h = how + fmt(": epoch %d", k);
    auto L = [&] { if (glo != 1) p.feed(c, leg(1004, t, glo == 2, {3, 4}), h.c_str()); if (glo) p.feed(c, leg(1012, t, false, {3, 4}), h.c_str()); };
    auto M = [&] { if (lost >> k & 1) return; if (glo != 1) p.feed(c, msm(GPS, 7, t, bit(3) | bit(4), glo == 2, 1), h.c_str()); if (glo) p.feed(c, msm(GLO, 7, t, bit(3) | bit(4), false, 2), h.c_str()); };
    if (first) { L(); M(); } else { M(); L(); }
  }
}
// ---- excluded constellations
static void excluded(Ctx &c) {
  uint32_t mask = c.choose(64, "excluded"); int s = (int)c.choose(4 + 4 * 4, "source"); bool mix = c.choose(2, "two sources"); static const int CC[] = {CONSTELLATION_GPS, CONSTELLATION_SBAS, CONSTELLATION_GLO, CONSTELLATION_BDS, CONSTELLATION_QZS, CONSTELLATION_GAL}; Pair p;
  for (int i = 0; i < 6; i++) { constellation_mask[CC[i]] = mask >> i & 1; p.m.excluded[(size_t)CC[i]] = mask >> i & 1; }
  int64_t t = 2100ll * WEEK + 345600000; std::string how = fmt("excluded %02x, source %d", mask, s); static const int CO[] = {GPS, GLO, GAL, BDS}; static const int LN[] = {1004, 1012, 1002, 1010};
  for (int e = 0; e < 2; e++) {
    if (s < 4) { std::vector<int> ids = {3, 4}; if (LN[s] < 1009) ids = {3, 40, 4, 58}; p.feed(c, leg(LN[s], t, mix, ids), how.c_str()); if (mix) p.feed(c, leg(s % 2 ? 1004 : 1012, t, false, {7, 8}), how.c_str()); }
    else { int k = s - 4; Msg m = msm(CO[k % 4], 4 + k / 4, t, bit(2) | bit(9), mix, (uint32_t)k); for (auto &x : SIGNALS[CO[k % 4]]) m.sig_mask |= 1u << (32 - x.id); m.all_cells(); m.fill((uint32_t)k); p.feed(c, m, how.c_str()); if (mix) p.feed(c, msm(CO[(k + 1) % 4], 4, t, bit(5), false, 77), how.c_str()); }
    t += 6000;
  }
  conv::all_constellations();
}
// ---- GLONASS biases
struct Bias { int mask; double a, b, c, d; };
struct Desc { const char *n; Bias b; };
// the receiver families and their biases in metres (L1 C/A, L1 P, L2 C/A, L2 P), most specific first
static const std::vector<Desc> TABLE = {
  {"Geo++ GNSMART (GLO=ASH)", {9, -14.7, 0, 0, -16.2}}, {"Geo++ GNSMART (GLO=HEM)", {9, -0.3, 0, 0, 3.5}}, {"Geo++ GNSMART (GLO=JAV)", {9, -1.5, 0, 0, -8.1}}, {"Geo++ GNSMART (GLO=JPS)", {9, -3.7, 0, 0, 0.7}}, {"Geo++ GNSMART (GLO=LEI)", {9, -70.7, 0, 0, -66.3}}, {"Geo++ GNSMART (GLO=NOV)", {9, -70.7, 0, 0, -66.3}},
  {"Geo++ GNSMART (GLO=NAV)", {9, 0.4, 0, 0, 2.1}}, {"Geo++ GNSMART (GLO=NVR)", {9, 116.7, 0, 0, 187}}, {"Geo++ GNSMART (GLO=SEP)", {9, 0, 0, 0, 0}}, {"Geo++ GNSMART (GLO=SOK)", {9, -70.7, 0, 0, -66.3}}, {"Geo++ GNSMART (GLO=TPS)", {9, -2.56, 0, 0, 3.74}}, {"Geo++ GNSMART (GLO=TRM)", {9, 18.8, 0, 0, 23.2}},
  {"TRIMBLE", {15, 19.06, 19.06, 19.06, 19.06}}, {"ASHTECH", {15, 19.06, 19.06, 19.06, 19.06}}, {"LEICA", {15, -71.94, -71.94, -71.94, -71.94}}, {"NOV", {15, -71.94, -71.94, -71.94, -71.94}}, {"GEOMAX", {15, -71.94, -71.94, -71.94, -71.94}}, {"SEPT", {15, 0, 0, 0, 0}}, {"TPS", {9, 0, 0, 0, 0}}, {"JAVAD", {9, -1.5, 0, 0, -8.1}}, {"NAVCOM", {9, 0.4, 0, 0, 2.1}}, {"HEMI", {9, -0.2, 0, 0, 3.4}},
  {"", {0, 0, 0, 0, 0}}};
static Bytes m1033(int stn, const std::string &rcv, const std::string &ant = "ANT", const std::string &fw = "FW", const std::string &ser = "1", const std::string &aser = "2") {
  BitW b; b.u(12, 1033); b.u(12, (uint64_t)stn); auto t = [&](const std::string &s) { b.u(8, s.size()); for (char ch : s) b.u(8, (uint8_t)ch); };
  t(ant); b.u(8, 3); t(aser); t(rcv); t(fw); t(ser); return b.b;
}
static Bytes m1230(int stn, int ind, int mask, const int v[4]) { BitW b; b.u(12, 1230); b.u(12, (uint64_t)stn); b.u(1, (uint64_t)ind); b.u(3, 0); b.u(4, (uint64_t)mask); for (int i = 0; i < 4; i++) if (mask >> (3 - i) & 1) b.s(16, v[i]); return b.b; }
static void expect(Ctx &c, R2S &r, int stn, int mask, const long v[4], const std::string &how) {
  auto o = r.take(); CHK(c, o.size() == 1 && o[0].type == SbpMsgGloBiases, "%s: %zu messages", how.c_str(), o.size()); auto &g = o[0].m.glo_biases; c.traced();
  CHK(c, o[0].sender == conv::sender(stn), "%s: sender %04x", how.c_str(), o[0].sender);
  CHK(c, g.mask == mask && g.l1ca_bias == v[0] && g.l1p_bias == v[1] && g.l2ca_bias == v[2] && g.l2p_bias == v[3], "%s: mask %x biases %d %d %d %d, expected %x %ld %ld %ld %ld", how.c_str(), g.mask, g.l1ca_bias, g.l1p_bias, g.l2ca_bias, g.l2p_bias, mask, v[0], v[1], v[2], v[3]); c.state(hash_bytes(&g, sizeof g));
}
static void expect(Ctx &c, R2S &r, int stn, const Bias &b, const std::string &how) { long v[4] = {std::lrint(b.a * 50), std::lrint(b.b * 50), std::lrint(b.c * 50), std::lrint(b.d * 50)}; expect(c, r, stn, b.mask, v, how); }
static void descriptors(Ctx &c) {
  uint32_t i = c.choose((uint32_t)TABLE.size(), "receiver"), shape = c.choose(8, "text"), j = c.choose((uint32_t)TABLE.size(), "other field"); int field = (int)c.choose(4, "field"); std::string n = TABLE[i].n, o = TABLE[j].n, rcv, ant = "", fw = "", ser = "", as = ""; size_t want = i;
  auto fit = [](std::string s) { return s.size() > 31 ? s.substr(0, 31) : s; };
  switch (shape) { case 0: rcv = n; break; case 1: rcv = n + " X"; break; case 2: rcv = "X " + n; break; case 3: rcv = n.substr(0, n.size() ? n.size() - 1 : 0); want = TABLE.size() - 1; break; case 4: rcv = n; for (auto &ch : rcv) ch = (char)tolower(ch); if (rcv == n) break; want = TABLE.size() - 1; break; case 5: rcv = n.size() > 12 ? n + " TRIMBLE" : n + " FOO"; break; case 6: rcv = std::string(31 - std::min<size_t>(31, n.size()), '.') + n; break; default: rcv = "." + n + "."; }
  if (shape == 3 || shape == 4) for (size_t k = 0; k < TABLE.size(); k++) if (rcv.find(TABLE[k].n) != std::string::npos) { want = k; break; }
  (field == 0 ? ant : field == 1 ? fw : field == 2 ? ser : as) = o;   // names elsewhere do not count
  R2S r; r.know(2100, 345600); r.payload(m1033(700, fit(rcv), fit(ant), fit(fw), fit(ser), fit(as))); c.step(); expect(c, r, 700, TABLE[want].b, "receiver \"" + rcv + "\"");
}
static void explicit_biases(Ctx &c) {
  int mask = (int)c.choose(16, "mask"), ind = (int)c.choose(2, "indicator"), which = (int)c.choose(4, "bias"); static const int V[] = {0, 1, -1, 50, 953, -3597, 32767, -32767, -32768, 255, 256, 1000}; int x = V[c.choose(12, "value")]; int v[4] = {11, -22, 33, -44}; v[which] = x; R2S r; r.know(2100, 345600);
  r.payload(m1230(4095, ind, mask, v)); long w[4]; for (int i = 0; i < 4; i++) w[i] = !ind && (mask >> (3 - i) & 1) ? v[i] : 0; c.step(); expect(c, r, 4095, mask, w, fmt("indicator %d mask %x value %d", ind, mask, x));
}
static void bias_sources(Ctx &c) {
  int len = c.thorough ? 5 : 3; static const int G[] = {0, 1, 119, 120, 121, 240}; int64_t now = 2100ll * 604800 + (c.choose(2, "end of week") ? 604790 : 345600), last = -1; R2S r; r.know((int)(now / 604800), (double)(now % 604800)); std::string how;
  for (int k = 0; k < len; k++) {
    int g = G[c.choose(6, "seconds")], s = (int)c.choose(5, "message"); now += g; if (g) r.know((int)(now / 604800), (double)(now % 604800)); int stn = 5 + (s == 3); how += fmt("%s%s at +%ds", k ? ", " : "", s == 0 ? "1230" : s == 1 ? "1033" : s == 2 ? "cut 1230" : s == 4 ? "1230 of aligned measurements" : "1033 of another station", g); c.at("%s", how.c_str()); c.step();
    if (s == 0) { int v[4] = {k + 1, -k, 7, 9}; long w[4] = {k + 1, -k, 7, 9}; r.payload(m1230(stn, 0, 15, v)); last = now; expect(c, r, stn, 15, w, how); }
    else if (s == 4) { int v[4] = {1, 2, 3, 4}; long w[4] = {0, 0, 0, 0}; int mask = k & 1 ? 15 : 0; r.payload(m1230(stn, 1, mask, v)); last = now; expect(c, r, stn, mask, w, how); }
    else if (s == 2) { int v[4] = {1, 2, 3, 4}; Bytes b = m1230(stn, 0, 15, v); b.resize(b.size() - 1); r.payload(b); CHK(c, r.out.empty(), "%s: sent", how.c_str()); }
    else { r.payload(m1033(stn, TABLE[12 + (size_t)k % 10].n)); if (last >= 0 && now - last <= 120) { CHK(c, r.out.empty(), "%s: biases from the descriptor while explicit ones are %lld s old", how.c_str(), (long long)(now - last)); c.traced(); } else expect(c, r, stn, TABLE[12 + (size_t)k % 10].b, how); }
  }
}
int main(int argc, char **argv) {
  Spec s; s.property = "C16"; s.rule = "every order of observation messages of both families with gaps around the 5 s silence, every subset of lost multi-signal epochs of a station that sends both, every set of excluded constellations x every source, every receiver descriptor, every order of bias messages with gaps around 120 s";
  s.assumptions = {"descriptors and biases as listed with the converter", "exclusion concerns observations"};
  s.scenarios = {{"silence", silence}, {"silence, long", silence_long}, {"mixed", mixed}, {"both", both}, {"excluded", excluded}, {"descriptors", descriptors}, {"explicit biases", explicit_biases}, {"bias sources", bias_sources}};
  return run(argc, argv, s);
}
