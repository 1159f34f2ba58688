// C12: satellite, signal and accuracy-index mappings against the standard's tables
#include "msmtab.hpp"
#include <cmath>
#include <memory>
extern "C" {
#include <rtcm3/constants.h>
#include <rtcm3/messages.h>
#include <rtcm3/msm_utils.h>
#include <swiftnav/common.h>
#include <swiftnav/signal.h>
#include <rtcm3_utils.h>
}
using namespace mc; using namespace msmref;
static const rtcm_constellation_t RC[6] = {RTCM_CONSTELLATION_GPS, RTCM_CONSTELLATION_SBAS, RTCM_CONSTELLATION_GLO, RTCM_CONSTELLATION_BDS, RTCM_CONSTELLATION_QZS, RTCM_CONSTELLATION_GAL};
static const std::vector<Sg> *const T = SIGNALS;
static bool pos_of(int cons, int code, int id) { return code_at(cons, id) == code; }
static bool supported(int cons, int code) { for (auto &s : T[cons]) if (s.code == code) return true; return false; }
static const char *CN[] = {"GPS", "SBAS", "GLONASS", "BeiDou", "QZSS", "Galileo"};
static rtcm_msm_header hdr(int cons, int kind, uint64_t sats, uint32_t sigs) {
  rtcm_msm_header h; memset(&h, 0, sizeof h); h.msg_num = (uint16_t)(base(cons) + kind);
  for (int i = 0; i < 64; i++) h.satellite_mask[i] = sats >> (63 - i) & 1;
  for (int i = 0; i < 32; i++) h.signal_mask[i] = sigs >> (31 - i) & 1;
  return h;
}
// signal masks: every single position, every pair, every position with all others, everything
static void signals(Ctx &c) {
  int cons = (int)c.choose(6, "constellation"), kind = 1 + (int)c.choose(7, "kind"); uint32_t a = c.choose(33, "signal"), b = c.choose(33, "signal");
  uint32_t mask = 0; if (a < 32) mask |= 1u << (31 - a); if (b < 32) mask |= 1u << (31 - b); if (a == 32 && b == 32) mask = ~0u; else if (a == 32) mask = ~(1u << (31 - b));
  rtcm_msm_header h = hdr(cons, kind, 1, mask); int n = 0;
  CHK(c, msm_get_num_signals(&h) == __builtin_popcount(mask), "signal mask %08x counts %u signals", mask, msm_get_num_signals(&h));
  for (int id = 1; id <= 32; id++) if (mask >> (32 - id) & 1) {
    int want = code_at(cons, id), got = msm_signal_to_code(&h, (uint8_t)n); c.step();
    CHK(c, got == want, "%s signal id %d (index %d of mask %08x) is code %d, expected %d", CN[cons], id, n, mask, got, want);
    for (int fcn : {0, 6, 7, 13, 255}) {
      double f = -1; bool ok = msm_signal_frequency(&h, (uint8_t)n, (uint8_t)fcn, &f); bool wok = want != CODE_INVALID && (cons != GLO || fcn != 255);
      double wf = mhz_at(cons, id); if (cons == GLO) wf += (fcn - 7) * (id <= 3 ? 0.5625 : 0.4375);
      CHK(c, ok == wok, "%s signal id %d, channel %d: frequency %s", CN[cons], id, fcn, ok ? "reported" : "refused");
      if (ok && wok) CHK(c, std::fabs(f - wf * 1e6) < 1, "%s signal id %d, channel %d: frequency %.0f, expected %.0f", CN[cons], id, fcn, f, wf * 1e6);
    }
    if (want != CODE_INVALID) {
      int gi = code_to_msm_signal_index(&h, (code_t)want), gid = code_to_msm_signal_id((code_t)want, RC[cons]);
      CHK(c, gid < 32 && pos_of(cons, want, gid + 1), "%s code %d has signal id %d", CN[cons], want, gid + 1);
      if (gid + 1 == id) CHK(c, gi == n, "%s code %d is index %d of mask %08x, expected %d", CN[cons], want, gi, mask, n);
    }
    n++; c.state(mix(mix(mask, (uint64_t)got), (uint64_t)cons));
  }
  c.traced();
}
// every code in every constellation: its own position, or refused
static void codes(Ctx &c) {
  int cons = (int)c.choose(6, "constellation");
  for (int code = 0; code < CODE_COUNT; code++) {
    int id = code_to_msm_signal_id((code_t)code, RC[cons]); c.step(); c.traced(); c.state(mix((uint64_t)code, (uint64_t)id));
    if (supported(cons, code)) CHK(c, id < 32 && pos_of(cons, code, id + 1), "%s code %d has signal id %d", CN[cons], code, id + 1);
    else CHK(c, id >= 32, "code %d, which %s messages cannot carry, has signal id %d", code, CN[cons], id + 1);
  }
}
static void sats(Ctx &c) {
  int cons = (int)c.choose(6, "constellation"); uint32_t a = c.choose(65, "satellite"), b = c.choose(65, "satellite"), kind = 4 + c.choose(4, "kind");
  uint64_t mask = 0; if (a < 64) mask |= 1ull << (63 - a); if (b < 64) mask |= 1ull << (63 - b); if (a == 64 && b == 64) mask = ~0ull; else if (a == 64) mask = ~(1ull << (63 - b));
  rtcm_msm_header h = hdr(cons, (int)kind, mask, 1); int n = 0; CHK(c, msm_get_num_satellites(&h) == __builtin_popcountll(mask), "satellite mask counts %u", msm_get_num_satellites(&h));
  for (int id = 1; id <= 64; id++) if (mask >> (64 - id) & 1) {
    int want = id <= NUM[cons] ? FIRST[cons] + id - 1 : 0, got = msm_sat_to_prn(&h, (uint8_t)n); c.step();
    CHK(c, got == want, "%s satellite id %d (index %d of mask %016llx) is number %d, expected %d", CN[cons], id, n, (unsigned long long)mask, got, want);
    if (want) {
      int gid = prn_to_msm_sat_id((uint8_t)want, RC[cons]), gi = prn_to_msm_sat_index(&h, (uint8_t)want);
      CHK(c, gid == id - 1, "%s satellite %d has id %d, expected %d", CN[cons], want, gid + 1, id); CHK(c, gi == n, "%s satellite %d is index %d of mask %016llx, expected %d", CN[cons], want, gi, (unsigned long long)mask, n);
    }
    n++; c.state(mix(mix(mask, (uint64_t)got), (uint64_t)cons));
  }
  c.traced();
}
static void numbers(Ctx &c) {
  uint32_t hi = c.choose(256, "high byte");
  for (uint32_t lo = 0; lo < 256; lo++) {
    int num = (int)(hi << 8 | lo), k = kind(num); c.step(); int cons = -1; for (int x = 0; x < 6; x++) if (num > base(x) && num <= base(x) + 7) cons = x;
    if (cons < 0) continue;
    CHK(c, to_constellation((uint16_t)num) == RC[cons] && (int)to_msm_type((uint16_t)num) - (int)MSM1 + 1 == k, "message %d: constellation %d type %d", num, (int)to_constellation((uint16_t)num), (int)to_msm_type((uint16_t)num));
    int g = to_msm_msg_num(RC[cons], to_msm_type((uint16_t)num)); CHK(c, g == num, "%s MSM%d has message number %d, expected %d", CN[cons], k, g, num); c.traced(); c.state((uint64_t)num);
  }
  if (!hi) {
    for (int x = 0; x < 6; x++) CHK(c, to_msm_msg_num(RC[x], MSM_UNKNOWN) == 0, "an unknown kind gets message number %d", to_msm_msg_num(RC[x], MSM_UNKNOWN));
    CHK(c, to_msm_msg_num(RTCM_CONSTELLATION_INVALID, MSM4) == 0, "an invalid constellation gets message number %d", to_msm_msg_num(RTCM_CONSTELLATION_INVALID, MSM4));
  }
}
// building a header: model of the masks
struct Model { int cons; uint64_t sats = 0; uint32_t sigs = 0; };
static int sid_of(int cons, int code) { for (int id = 1; id <= 32; id++) if (pos_of(cons, code, id)) return id; return 0; }
static void cmp(Ctx &c, const rtcm_msm_header &h, const Model &m, const std::string &tr) {
  for (int i = 0; i < 64; i++) CHK(c, h.satellite_mask[i] == (bool)(m.sats >> (63 - i) & 1), "after%s satellite id %d is %s", tr.c_str(), i + 1, h.satellite_mask[i] ? "in the mask" : "missing from the mask");
  for (int i = 0; i < 32; i++) CHK(c, h.signal_mask[i] == (bool)(m.sigs >> (31 - i) & 1), "after%s signal id %d is %s", tr.c_str(), i + 1, h.signal_mask[i] ? "in the mask" : "missing from the mask");
}
static bool add(Ctx &c, rtcm_msm_header &h, Model &m, int code, int prn, std::string &tr) {
  bool ok = prn >= FIRST[m.cons] && prn < FIRST[m.cons] + NUM[m.cons] && supported(m.cons, code);
  if (ok) {
    uint64_t s = m.sats | 1ull << (63 - (prn - FIRST[m.cons])); uint32_t g = m.sigs | 1u << (32 - sid_of(m.cons, code));
    if (__builtin_popcountll(s) * __builtin_popcount(g) > 64) ok = false; else { m.sats = s; m.sigs = g; }
  }
  tr += fmt(" %d/%d", prn, code); bool r = msm_add_to_header(&h, (code_t)code, (uint8_t)prn); c.step();
  CHK(c, r == ok, "%s:%s was %s", CN[m.cons], tr.c_str(), r ? "accepted" : "refused"); cmp(c, h, m, tr); return ok;
}
static void build(Ctx &c) {
  Model m; m.cons = (int)c.choose(6, "constellation"); rtcm_msm_header h = hdr(m.cons, 5, 0, 0); auto &t = T[m.cons]; std::string tr; std::vector<std::pair<int, int>> in;
  std::vector<int> cs = {t[0].code, t[1].code, t.back().code, m.cons == GPS ? CODE_GLO_L1OF : CODE_GPS_L2CM, CODE_INVALID, CODE_AUX_GPS}; int F = FIRST[m.cons], N = NUM[m.cons]; std::vector<int> ps = {F, F + 1, F + N - 1, F + N, F ? F - 1 : 255};
  int len = c.thorough ? 4 : 3;
  for (int k = 0; k < len; k++) { int code = cs[c.choose(6, "code")], prn = ps[c.choose(5, "satellite")]; if (add(c, h, m, code, prn, tr)) in.push_back({code, prn}); }
  // cells, in order of arrival: position = satellite index * signals + signal index
  if (!m.sigs) return; bool want[64] = {};
  std::vector<std::pair<int, int>> seen;
  for (auto &x : in) {
    bool dup = false; for (auto &y : seen) if (y == x) dup = true; if (dup) continue; seen.push_back(x);
    int si = __builtin_popcountll(m.sats >> (64 - (x.second - F))) * (x.second - F > 0), gi = sid_of(m.cons, x.first) > 1 ? __builtin_popcount(m.sigs >> (33 - sid_of(m.cons, x.first))) : 0;
    int cell = si * __builtin_popcount(m.sigs) + gi; want[cell] = true; bool r = msm_add_to_cell_mask(&h, (code_t)x.first, (uint8_t)x.second); c.step();
    CHK(c, r, "%s:%s: no cell for satellite %d code %d", CN[m.cons], tr.c_str(), x.second, x.first);
    for (int i = 0; i < 64; i++) CHK(c, h.cell_mask[i] == want[i], "%s:%s: cell %d wrong after satellite %d code %d", CN[m.cons], tr.c_str(), i, x.second, x.first);
  }
  int n = 0; for (bool w : want) n += w; CHK(c, msm_get_num_cells(&h) == n, "%d cells counted as %u", n, msm_get_num_cells(&h));
  // what is not in the masks gets no cell
  for (int code : cs) for (int prn : ps) {
    bool inm = prn >= F && prn < F + N && supported(m.cons, code) && (m.sats >> (63 - (prn - F)) & 1) && (m.sigs >> (32 - sid_of(m.cons, code)) & 1);
    if (inm) continue; bool r = msm_add_to_cell_mask(&h, (code_t)code, (uint8_t)prn); CHK(c, !r, "%s:%s: a cell for satellite %d code %d, which is not in the masks", CN[m.cons], tr.c_str(), prn, code);
    for (int i = 0; i < 64; i++) CHK(c, h.cell_mask[i] == want[i], "%s:%s: cell %d changed by a refused cell", CN[m.cons], tr.c_str(), i);
  }
  c.traced(); c.state(mix(m.sats, m.sigs));
}
// every header size around the limit of 64 cells, and what one more satellite or signal does to it
static void limit(Ctx &c) {
  Model m; m.cons = (int)c.choose(6, "constellation"); std::vector<int> codes; for (auto &s : T[m.cons]) if (sid_of(m.cons, s.code) == s.id) codes.push_back(s.code);
  int ng = 1 + (int)c.choose((uint32_t)codes.size(), "signals"), ns = 1 + (int)c.choose((uint32_t)NUM[m.cons], "satellites"); if (ns * ng > 64) return;
  rtcm_msm_header h = hdr(m.cons, 4, 0, 0); std::string tr; int F = FIRST[m.cons];
  for (int i = 0; i < ns; i++) add(c, h, m, codes[0], F + i, tr);
  for (int j = 0; j < ng; j++) add(c, h, m, codes[j], F, tr);
  c.traced(); c.state(mix((uint64_t)ns, (uint64_t)ng));
  rtcm_msm_header h0 = h; Model m0 = m;
  for (int dn : {-1, 0}) for (int dg : {-1, 0}) { int s = ns + dn, g = ng + dg; if (s >= NUM[m.cons] || g >= (int)codes.size()) continue; h = h0; m = m0; std::string t2 = fmt(" %d satellites, %d signals,", ns, ng); add(c, h, m, codes[g], F + s, t2); }
  // cells: all of them, last first
  h = h0; m = m0; bool want[64] = {}; std::vector<std::pair<int, int>> sg; for (int j = 0; j < ng; j++) sg.push_back({sid_of(m.cons, codes[j]), codes[j]}); std::sort(sg.begin(), sg.end());
  for (int i = ns - 1; i >= 0; i--) for (int j = ng - 1; j >= 0; j--) {
    bool r = msm_add_to_cell_mask(&h, (code_t)sg[j].second, (uint8_t)(F + i)); want[i * ng + j] = true; c.step(); CHK(c, r, "cell refused");
    for (int k = 0; k < 64; k++) CHK(c, h.cell_mask[k] == want[k], "%s, %d satellites, %d signals: satellite %d code %d is not cell %d", CN[m.cons], ns, ng, F + i, sg[j].second, i * ng + j);
    CHK(c, code_to_msm_signal_index(&h, (code_t)sg[j].second) == j && prn_to_msm_sat_index(&h, (uint8_t)(F + i)) == i, "index of satellite %d code %d", F + i, sg[j].second);
  }
  CHK(c, msm_get_num_cells(&h) == ns * ng, "%d cells counted as %u", ns * ng, msm_get_num_cells(&h));
}
static void channels(Ctx &c) {
  int cons = (int)c.choose(6, "constellation"); uint32_t sat = c.choose(28, "satellite"), mapped = c.choose(257, "channel in the table"); rtcm_msm_header h = hdr(cons, 7, 1ull << (63 - (sat % (uint32_t)NUM[cons])) | 1ull << 63, 2);
  uint8_t idx = (uint8_t)((sat % (uint32_t)NUM[cons]) ? 1 : 0); uint8_t map[29]; memset(map, 255, sizeof map); if (mapped < 256 && sat + 1 < 29) map[sat + 1] = (uint8_t)mapped;
  for (int info = 0; info < 256; info++) {
    uint8_t g = 99; bool ok = msm_get_glo_fcn(&h, idx, (uint8_t)info, mapped == 256 ? nullptr : map, &g); c.step(); int want = info != 255 ? info : mapped < 256 ? (int)mapped : 255; bool wok = cons == GLO && want <= 13;
    CHK(c, ok == wok, "%s satellite %u, channel field %d, table %u: %s", CN[cons], sat + 1, info, mapped, ok ? "accepted" : "refused");
    if (ok && wok) CHK(c, g == want, "GLONASS satellite %u, channel field %d, table %u: channel %u", sat + 1, info, mapped, g);
    c.state(mix((uint64_t)ok, g));
  }
  c.traced();
}
// accuracy indices, every index and floats around and beyond every documented value
static const double GPSU[16] = {2, 2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 6144}, GLOU[16] = {1, 2, 2.5, 4, 5, 7, 10, 12, 14, 16, 32, 64, 128, 256, 512, 6144}, BDSU[16] = {2, 2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192};
static void accuracy(Ctx &c) {
  uint32_t i = c.choose(256, "index"); float m = convert_ura_to_uri((uint8_t)i); c.step(); c.traced();
  if (i < 16) {
    CHK(c, m == (float)GPSU[i], "accuracy index %u is %.9g m, expected %.9g", i, m, GPSU[i]);
    uint8_t g = convert_gps_uri_to_ura((float)GPSU[i]), l = convert_glo_uri_to_ura((float)GLOU[i]), b = convert_bds_uri_to_ura((float)BDSU[i]);
    CHK(c, g == i, "GPS accuracy %.9g m has index %u, expected %u", GPSU[i], g, i); CHK(c, l == i, "GLONASS accuracy %.9g m has index %u, expected %u", GLOU[i], l, i); CHK(c, b == i, "BeiDou accuracy %.9g m has index %u, expected %u", BDSU[i], b, i);
  } else CHK(c, m < 0, "accuracy index %u, which does not exist, is %.9g m", i, m);
  static const float SP[] = {-1, -0.0f, 0, 1e-30f, 0.1f, 0.25f, 0.5f, 8191.9f, 8192, 8193, 16383, 16384, 16385, 32768, 65536, 1e9f, 3e38f, INFINITY, -INFINITY, NAN, -8192};
  if (i < sizeof SP / sizeof *SP) {
    float f = SP[i]; uint8_t r[3] = {convert_gps_uri_to_ura(f), convert_glo_uri_to_ura(f), convert_bds_uri_to_ura(f)};
    for (int k = 0; k < 3; k++) { CHK(c, r[k] <= 15, "accuracy %.9g m has index %u, which the field cannot hold", f, r[k]); if (!(f >= 0) || f > 8192) CHK(c, r[k] == 15, "accuracy %.9g m is sent as index %u instead of none", f, r[k]); c.state(mix(i, r[k])); }
  }
}
static void sisa(Ctx &c) {
  uint32_t i = c.choose(256, "index"); float m = convert_sisa_to_meters((uint8_t)i); c.step(); c.traced(); auto doc = [](uint32_t x) { return x < 50 ? x * 0.01 : x < 75 ? 0.5 + (x - 50) * 0.02 : x < 100 ? 1 + (x - 75) * 0.04 : 2 + (x - 100) * 0.16; };
  c.state(mix(i, (uint64_t)(m * 1000)));
  if (i <= 125) {
    CHK(c, std::fabs(m - doc(i)) < 1e-6, "SISA %u is %.9g m, expected %.9g", i, m, doc(i)); uint8_t b = convert_meters_to_sisa(m); CHK(c, b == i, "SISA %u converts to %.9g m and back to %u", i, m, b);
    b = convert_meters_to_sisa((float)doc(i)); CHK(c, b == i, "%.9g m converts to SISA %u, expected %u", doc(i), b, i);
    // between two entries: one of the two
    if (i < 125) for (int k = 1; k < 16; k++) { float f = (float)(doc(i) + (doc(i + 1) - doc(i)) * k / 16); b = convert_meters_to_sisa(f); CHK(c, b == i || b == i + 1, "%.9g m converts to SISA %u, between %u and %u expected", f, b, i, i + 1); }
  } else { CHK(c, m < 0, "SISA %u, which is reserved, is %.9g m", i, m); CHK(c, convert_meters_to_sisa(m) == 255, "no accuracy prediction converts to SISA %u", convert_meters_to_sisa(m)); }
  if (!i) for (float f : {-1.0f, -0.01f, 6.5f, 100.0f, 1e9f, (float)INFINITY, (float)-INFINITY, (float)NAN}) CHK(c, convert_meters_to_sisa(f) == 255, "%.9g m converts to SISA %u", f, convert_meters_to_sisa(f));
}
static void fit(Ctx &c) {
  uint32_t blk = c.choose(32, "IODC block"), flag = c.choose(2, "flag");
  for (uint32_t k = 0; k < 32; k++) {
    uint32_t iodc = blk * 32 + k, h = 4; if (flag) { h = 6; if (iodc >= 240 && iodc <= 247) h = 8; else if ((iodc >= 248 && iodc <= 255) || iodc == 496) h = 14; else if ((iodc >= 497 && iodc <= 503) || (iodc >= 1021 && iodc <= 1023)) h = 26; else if (iodc >= 504 && iodc <= 510) h = 50; else if (iodc == 511 || (iodc >= 752 && iodc <= 756)) h = 74; else if (iodc == 757) h = 98; }
    uint32_t g = rtcm3_decode_fit_interval_gps((uint8_t)flag, (uint16_t)iodc); c.step(); c.traced(); c.state(mix(iodc, g));
    CHK(c, g == h * 3600, "fit interval flag %u, IODC %u: %u s, expected %u h", flag, iodc, g, h); CHK(c, rtcm3_encode_fit_interval_gps(g) == flag, "fit interval %u s (IODC %u) is sent with flag %u", g, iodc, rtcm3_encode_fit_interval_gps(g));
  }
  if (!blk && !flag) { static const uint32_t F[] = {0, 1, 2}, S[] = {4200, 2400, 3300}; for (int i = 0; i < 3; i++) CHK(c, rtcm3_encode_fit_interval_glo(S[i]) == F[i], "GLONASS fit interval %u s is sent as %u", S[i], rtcm3_encode_fit_interval_glo(S[i])); }
}
int main(int argc, char **argv) {
  Spec s; s.property = "C12";
  s.rule = "every constellation with every signal mask of one, two, 31 or 32 signals and every satellite mask of one, two, 63 or 64 satellites; every code in every constellation; every message number; every sequence of three (thorough: four) header additions over a menu of supported, foreign, unsupported and invalid signals and satellites; every header size up to 64 cells; every GLONASS channel source; every accuracy, SISA and fit-interval index and special values; compared with the tables of the standards";
  s.assumptions = {"several RTCM signals that share one SBP code (GPS P and W) map back to one of them", "accuracies between documented values are only required to stay within the index range"};
  s.scenarios = {{"signals", signals}, {"codes", codes}, {"sats", sats}, {"numbers", numbers}, {"build", build}, {"limit", limit}, {"channels", channels}, {"accuracy", accuracy}, {"sisa", sisa}, {"fit", fit}};
  return run(argc, argv, s);
}
