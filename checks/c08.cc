// C08: encoding a message and decoding the result gives the message back, to the resolution of its fields
#include "rtcmfields.hpp"
#include <cmath>
using namespace mc; using namespace rtcmref;
static bool is_legacy(int n) { return (n >= 1001 && n <= 1004) || n == 1010 || n == 1012; }
static bool is_glo(int n) { return n > 1004; }
static bool has_l2(int n) { return n == 1003 || n == 1004 || n == 1012; }
static bool ext(int n) { return n == 1002 || n == 1004 || n >= 1010; }
static double unit(int n) { return is_glo(n) ? 599584.916 : 299792.458; }
static double freq(int n, int f, int fcn) { return is_glo(n) ? (f ? 1246.0e6 + (fcn - 7) * 437500.0 : 1602.0e6 + (fcn - 7) * 562500.0) : f ? 1227.60e6 : 1575.42e6; }
// encode into two differently filled buffers: only the announced bytes are written, and what decodes does not depend on the old content
static bool encode(Ctx &c, const Shape &s, const void *m, Bytes &b, const char *what) {
  static const size_t CAP = 3000; std::unique_ptr<uint8_t[]> q(new uint8_t[CAP]); Bytes first;
  for (int z = 0; z < 2; z++) {
    uint8_t fill = z ? 0xFF : 0; memset(q.get(), fill, CAP); c.at("encode %s, %s", s.name.c_str(), what); uint16_t n = s.enc(m, q.get());
    CHK(c, n > 0 && n < CAP, "%s, %s: encoder returns %u bytes", s.name.c_str(), what, n); if (!n || n >= CAP) return false;
    for (size_t i = n; i < CAP; i++) if (q[i] != fill) { c.check(false, "%s, %s: byte %zu beyond the %u announced is written", s.name.c_str(), what, i, n); return false; }
    Bytes now(q.get(), q.get() + n); if (!z) { first = now; continue; }
    CHK(c, now.size() == first.size(), "%s, %s: length depends on the old content of the buffer", s.name.c_str(), what); if (now.size() != first.size()) return false;
    for (size_t i = 0; i + 1 < n; i++) CHK(c, now[i] == first[i], "%s, %s: byte %zu depends on the old content of the buffer", s.name.c_str(), what, i);
  }
  b = first; return true;
}
static double mod1500(double d) { return std::fabs(std::remainder(d, 1500.0)); }
// compares legacy observations: what was to be sent against what came back
static void same_legacy(Ctx &c, int num, const rtcm_obs_message &a, const rtcm_obs_message &b, const char *what, bool grid) {
  std::vector<int> keep; bool l2 = has_l2(num);
  for (int i = 0; i < a.header.n_sat && keep.size() < 31; i++) {
    auto &f = a.sats[i].obs[0].flags.fields, &g = a.sats[i].obs[1].flags.fields; if (!f.valid_pr || !f.valid_cp) continue; if (num == 1003 && (!g.valid_pr || !g.valid_cp)) continue;
    double amb = std::floor(a.sats[i].obs[0].pseudorange / unit(num)); if ((amb < 0 || amb > (is_glo(num) ? 127 : 255))) continue;
    keep.push_back(i);
  }
  auto &h = a.header, &k = b.header;
  CHK(c, h.msg_num == k.msg_num && h.stn_id == k.stn_id && h.tow_ms == k.tow_ms && h.sync == k.sync && h.div_free == k.div_free && h.smooth == k.smooth, "%d, %s: header %u/%u/%u/%u/%u/%u comes back as %u/%u/%u/%u/%u/%u", num, what, h.msg_num, h.stn_id, h.tow_ms, h.sync, h.div_free, h.smooth, k.msg_num, k.stn_id, k.tow_ms, k.sync, k.div_free, k.smooth);
  CHK(c, k.n_sat == keep.size(), "%d, %s: %zu satellites can be sent, %d come back", num, what, keep.size(), k.n_sat);
  for (size_t j = 0; j < keep.size() && j < k.n_sat; j++) {
    const rtcm_sat_data &x = a.sats[keep[j]], &y = b.sats[j]; int fcn = x.fcn;
    CHK(c, x.svId == y.svId, "%d, %s: satellite %d comes back as %d", num, what, x.svId, y.svId);
    if (is_glo(num)) CHK(c, x.fcn == y.fcn, "%d, %s: frequency %d comes back as %d", num, what, x.fcn, y.fcn);
    double shift = ext(num) ? 0 : std::floor(x.obs[0].pseudorange / unit(num)) * unit(num);     // ranges are sent without their whole milliseconds
    
    // the standard's invalid marker lies inside the field's range: this one value cannot be sent
    if (std::fabs(x.obs[0].pseudorange - std::floor(x.obs[0].pseudorange / unit(num)) * unit(num) - 524288 * 0.02) < 0.0101) continue;
    for (int f = 0; f < (l2 ? 2 : 1); f++) {
      const rtcm_freq_data &p = x.obs[f], &q = y.obs[f]; double lam = C / freq(num, f, fcn);
      if (f == 0 && is_glo(num) && p.code == 1 && q.code == 0) c.fail("glonass-l1-p-code", "%d, %s: L1 P code comes back as C/A", num, what); else CHK(c, q.code == p.code, "%d, %s: L%d code indicator %d comes back as %d", num, what, f + 1, p.code, q.code);
      bool vpr = p.flags.fields.valid_pr; double d2 = p.pseudorange - x.obs[0].pseudorange; bool edge = false;
      if (f == 1 && vpr) { double u = std::fabs(d2) / 0.02; if (u > 8192.01) vpr = false; else if (u > 8190.4) edge = true; }
      if (!edge) CHK(c, q.flags.fields.valid_pr == vpr, "%d, %s: L%d range %s but comes back %s", num, what, f + 1, vpr ? "valid" : "invalid", q.flags.fields.valid_pr ? "valid" : "invalid");
      if (q.flags.fields.valid_pr && p.flags.fields.valid_pr) CHK(c, std::fabs(p.pseudorange - shift - q.pseudorange) < 0.0205, "%d, %s: L%d range %.4f comes back as %.4f", num, what, f + 1, p.pseudorange - shift, q.pseudorange);
      if (q.flags.fields.valid_pr && f == 0) CHK(c, std::fabs(p.pseudorange - shift - q.pseudorange) < 0.0101, "%d, %s: L1 range %.4f comes back as %.4f", num, what, p.pseudorange - shift, q.pseudorange);
      bool vcp = p.flags.fields.valid_cp && (!is_glo(num) || fcn <= 20); double dm = (p.carrier_phase - (x.obs[0].pseudorange) / lam) * lam / 0.0005; bool cedge = std::fabs(std::remainder(dm - 524288.0, 1500 * lam / 0.0005)) < 64 || std::fabs(std::remainder(dm + 524288.0, 1500 * lam / 0.0005)) < 64;
      if (!cedge || !vcp) CHK(c, q.flags.fields.valid_cp == vcp, "%d, %s: L%d phase %s but comes back %s", num, what, f + 1, vcp ? "valid" : "invalid", q.flags.fields.valid_cp ? "valid" : "invalid");
      if (vcp && q.flags.fields.valid_cp) {
        double dif = q.carrier_phase - (p.carrier_phase - shift / lam); double tol = 0.00026 / lam + (grid ? 0 : 0) + 1e-5;
        // ranges roll over by 1500 cycles only when the difference to the range does not fit
        if (std::fabs(dm) < 524200) CHK(c, std::fabs(dif) < tol, "%d, %s: L%d phase %.5f comes back as %.5f", num, what, f + 1, p.carrier_phase - shift / lam, q.carrier_phase);
        else CHK(c, mod1500(dif) < tol, "%d, %s: L%d phase %.5f comes back as %.5f, which is not a multiple of 1500 cycles away", num, what, f + 1, p.carrier_phase - shift / lam, q.carrier_phase);
      }
      double lk = p.flags.fields.valid_lock ? p.lock : 0, want = 0; for (uint32_t i = 0; i < 128; i++) if (msmref::lock7(i) <= lk) want = msmref::lock7(i);
      CHK(c, std::fabs(q.lock - want) < 1e-9, "%d, %s: L%d lock time %.3f comes back as %.3f", num, what, f + 1, lk, q.lock);
      double cw = ext(num) && p.flags.fields.valid_cnr ? std::round(p.cnr * 4) / 4 : 0;
      CHK(c, q.flags.fields.valid_cnr == (cw > 0), "%d, %s: L%d signal strength %.2f comes back %s", num, what, f + 1, cw, q.flags.fields.valid_cnr ? "valid" : "invalid");
      if (cw > 0) CHK(c, std::fabs(q.cnr - cw) < 1e-9, "%d, %s: L%d signal strength %.3f comes back as %.3f", num, what, f + 1, p.cnr, q.cnr);
    }
  }
}
static void again(Ctx &c, const Shape &s, const Raw &r, const char *what) {
  if (s.ok && !s.ok(r)) return;
  std::unique_ptr<uint8_t[]> m1(new uint8_t[s.size]), m2(new uint8_t[s.size]); memset(m1.get(), 0, s.size); memset(m2.get(), 0x3C, s.size);
  Bytes b = s.bytes(r), e; c.step(); c.traced(); if (decode(s, b, m1.get()) != RC_OK) return;   // C06 and C07 judge decoding
  if (is_legacy(s.num)) {   // ranges beyond the standard's range of the field have another representation
    size_t i = 0; for (auto &f : s.f) { if (!f.name.compare(0, 3, "pr1") && (double)r[i] * 0.02 >= unit(s.num)) return; i++; }
  }
  if (!encode(c, s, m1.get(), e, what)) return;
  rtcm3_rc rc = decode(s, e, m2.get()); CHK(c, rc == RC_OK, "%s with %s: what was encoded is refused (%d): %s", s.name.c_str(), what, (int)rc, hex(e).c_str()); if (rc != RC_OK) return;
  c.state(hash_bytes(e.data(), e.size()));
  if (is_legacy(s.num)) { same_legacy(c, s.num, *(rtcm_obs_message *)m1.get(), *(rtcm_obs_message *)m2.get(), what, true); return; }
  for (auto &o : s.o) {
    if (o.when && !o.when(r)) continue;
    double g = o.get(m2.get()), w = o.get(m1.get());
    if (!near(g, w, o.tol)) { c.check(false, "%s with %s: %s is %.12g and comes back as %.12g", s.name.c_str(), what, o.name.c_str(), w, g); return; }
  }
  bool msm = s.num >= 1070 && s.num < 1140;
  if (!msm && (!s.encodable || s.encodable(r))) CHK(c, e == b, "%s with %s is encoded as %s instead of %s", s.name.c_str(), what, hex(e).c_str(), hex(b).c_str());
}
static void round_trip(Ctx &c) {
  uint32_t si = c.choose((uint32_t)SH.size(), "shape"); const Shape &s = SH[si];
  uint32_t fi = c.choose((uint32_t)s.f.size(), "field"); const Field &x = s.f[fi]; if (x.fixed) return;
  uint32_t bg = c.choose(c.thorough ? 8 : 4, "background"); Raw r = background(s, bg); bool big = s.f.size() > 120;
  for (uint64_t p : patterns(x, c.thorough ? 14 : big ? 8 : 10)) { r[fi] = Shape::trim(x, p); again(c, s, r, fmt("%s = %lld", x.name.c_str(), (long long)r[fi]).c_str()); if (big && bg > 1 && !c.thorough && p > 4) break; }
}
// ---- legacy messages built as structures
static rtcm_obs_message blank(int num, int n) {
  rtcm_obs_message m; memset(&m, 0, sizeof m); m.header.msg_num = (uint16_t)num; m.header.stn_id = 0x321; m.header.tow_ms = is_glo(num) ? 12345000 : 345600000; m.header.sync = 1; m.header.n_sat = (uint8_t)n; m.header.smooth = 3;
  for (int i = 0; i < n; i++) {
    rtcm_sat_data &s = m.sats[i]; s.svId = (uint8_t)(i + 1); s.fcn = (uint8_t)(i % 14); double pr = 20123456.78 + 123456.7 * i;
    for (int f = 0; f < 2; f++) { rtcm_freq_data &d = s.obs[f]; d.pseudorange = pr + 5.5 * f; d.carrier_phase = (pr - 20.25 + 3 * f) / (C / freq(num, f, s.fcn)); d.lock = 100.5 + i; d.cnr = 40.25 - f; d.flags.data = 0x0F; }
  }
  return m;
}
static const Shape &shape_of(int num) { static std::vector<Shape> v; if (v.empty()) for (int n : {1001, 1002, 1003, 1004, 1010, 1012}) v.push_back(legacy(n, 0)); for (auto &s : v) if (s.num == num) return s; abort(); }
static void via(Ctx &c, const rtcm_obs_message &m, const char *what) {
  const Shape &s = shape_of(m.header.msg_num); Bytes e; c.step(); c.traced(); if (!encode(c, s, &m, e, what)) return;
  std::unique_ptr<rtcm_obs_message> d(new rtcm_obs_message); memset(d.get(), 0x3C, sizeof *d); rtcm3_rc rc = decode(s, e, d.get());
  CHK(c, rc == RC_OK, "%s, %s: what was encoded is refused", s.name.c_str(), what); if (rc == RC_OK) same_legacy(c, s.num, m, *d, what, false); c.state(hash_bytes(e.data(), e.size()));
}
static const int NUM[] = {1001, 1002, 1003, 1004, 1010, 1012};
static void flags(Ctx &c) {
  int num = NUM[c.choose(6, "number")]; int n = (int)c.choose(4, "sats"); uint32_t per = n == 1 ? 256 : 16;
  uint32_t a = n > 0 ? c.choose(per, "flags of the first") : 0, b = n > 1 ? c.choose(16, "second") : 0, d = n > 2 ? c.choose(16, "third") : 0;
  rtcm_obs_message m = blank(num, n); uint32_t w[3] = {a, b, d};
  for (int i = 0; i < n; i++) { uint8_t f1, f2; if (n == 1) { f1 = w[i] & 15; f2 = w[i] >> 4; } else { f1 = (uint8_t)(0x0C | (w[i] & 3)); f2 = (uint8_t)(0x0C | w[i] >> 2); } m.sats[i].obs[0].flags.data = f1; m.sats[i].obs[1].flags.data = f2; }
  via(c, m, fmt("%d satellites with flags %x %x %x", n, a, b, d).c_str());
}
static void many(Ctx &c) {
  int num = NUM[c.choose(6, "number")]; int n = 1 + (int)c.choose(32, "sats"), pat = (int)c.choose(5, "which are valid");
  rtcm_obs_message m = blank(num, n);
  for (int i = 0; i < n; i++) { bool v = pat == 0 || (pat == 1 && i != 0) || (pat == 2 && i != n - 1) || (pat == 3 && i % 2) || (pat == 4 && i % 3 != 1); if (!v) m.sats[i].obs[0].flags.data = 0x0E; }
  via(c, m, fmt("%d satellites, pattern %d", n, pat).c_str());
}
static void ranges(Ctx &c) {
  int num = NUM[c.choose(6, "number")]; double u = unit(num); int amax = is_glo(num) ? 127 : 255;
  int k = (int)c.choose(10, "whole units"); int amb = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 2 : k == 3 ? 33 : k == 4 ? 64 : k == 5 ? 100 : k == 6 ? amax - 1 : k == 7 ? amax : k == 8 ? amax + 1 : amax + 6;
  static const double OFF[] = {0, 0.001, 0.0099, 0.0101, 0.02, 0.0333, 10485.76, 10485.75, 149896.229, 262143.99, 262144.02, -0.0001, -0.0099, -0.0101, -0.02, -0.031, -150.005};
  double off = OFF[c.choose(17, "remainder")]; if (amb == 0 && off < 0) off += u; double pr = amb * u + off;
  static const double DL2[] = {0, 0.009, -0.011, 5.501, -33.339, 163.8, -163.8, 163.83, -163.83, 163.86, -163.86, 500, -5000, 40000000};
  static const double DCP[] = {0, 0.1, -0.1, 100.0001, -250, 262.1, -262.1, 262.2, -262.2, 300, -300, 547, -548, 1000, -2000, 30000, -1e6, 25e6, -20e6};
  for (double d2 : DL2) for (double dc : DCP) {
    rtcm_obs_message m = blank(num, 1); rtcm_sat_data &s = m.sats[0]; s.fcn = (uint8_t)(((int)(dc * 7) & 0x7F) % 14);
    for (int f = 0; f < 2; f++) { s.obs[f].pseudorange = pr + (f ? d2 : 0); if (s.obs[f].pseudorange < 0) s.obs[f].pseudorange = 0; s.obs[f].carrier_phase = (pr + dc) / (C / freq(num, f, s.fcn)); }
    via(c, m, fmt("range %.4f, second %+.3f, phase %+.4f m", pr, d2, dc).c_str()); if (!has_l2(num)) { if (d2 != 0) break; }
  }
}
static void strengths(Ctx &c) {
  int num = NUM[c.choose(6, "number")], f = (int)c.choose(2, "frequency"); uint32_t k = c.choose(256, "quarter dB"); rtcm_obs_message m = blank(num, 2);
  for (double e : {0.0, 0.12, -0.12}) { double v = k * 0.25 + e; if (v < 0 || v > 63.75) continue; m.sats[1].obs[f].cnr = v; via(c, m, fmt("signal strength %.3f", v).c_str()); }
}
static void locks(Ctx &c) {
  int num = NUM[c.choose(6, "number")], f = (int)c.choose(2, "frequency"); uint32_t k = c.choose(1000, "second"); rtcm_obs_message m = blank(num, 2);
  for (double e : {0.0, 0.5, 0.999, 1000.0, 1e6, 4e9}) { m.sats[1].obs[f].lock = k + e; via(c, m, fmt("lock time %.3f", k + e).c_str()); }
}
static void headers(Ctx &c) {
  int num = NUM[c.choose(6, "number")]; uint32_t top = is_glo(num) ? 86399999 : 604799999; rtcm_obs_message m = blank(num, 1); uint32_t k = c.choose(64, "tow");
  m.header.tow_ms = k < 32 ? (1u << (k % 30) > top ? top : 1u << (k % 30)) : top - (1u << (k - 32) > top ? 0 : (k - 32 < 30 ? (1u << (k - 32)) % (top + 1) : 0));
  for (uint32_t st : {0u, 1u, 2048u, 4095u}) for (uint8_t sy = 0; sy < 2; sy++) for (uint8_t df = 0; df < 2; df++) for (uint8_t sm = 0; sm < 8; sm++) { m.header.stn_id = (uint16_t)st; m.header.sync = sy; m.header.div_free = df; m.header.smooth = sm; via(c, m, fmt("header %u %u %u %u %u", m.header.tow_ms, st, sy, df, sm).c_str()); }
}
// ---- MSM4 and MSM5 built as structures
static void msm_values(Ctx &c) {
  using namespace msmref; int cons = (int)c.choose(6, "constellation"), kind = 4 + (int)c.choose(2, "kind"); uint32_t ri = c.choose(30, "rough range"); uint32_t gi = c.choose(4, "geometry");
  static const double RR[] = {0, 1.0 / 1024, 0.5 / 1024, 0.499 / 1024, 1023.4 / 1024, 1023.6 / 1024, 1, 66.5, 66.123456, 66.99949, 66.99952, 67, 127.9999, 128, 200.3, 254, 254.9, 254.99902, 255, 255.5, 256.25, 285.9, -0.0001, -0.0006, -0.5, -1.0, -1.5, -10.25, -255, -256.75};
  double rough = RR[ri];
  std::unique_ptr<rtcm_msm_message> m(new rtcm_msm_message), d(new rtcm_msm_message); Msg q = msm_msg(cons, kind, gi == 0 ? 1ull << 40 : gi == 1 ? 0x8000000000000001ull : 0x7000000000ull, gi == 0 ? 1u << 30 : 0x50000000u, gi == 3 ? 1 : 0);
  Shape s = rtcmref::msm(q, fmt("MSM%d", kind)); int ns = q.nsat(), ng = q.nsig(), nc = q.ncell();
  static const double FP[] = {0, 1e-8, 2.9e-8, 3.1e-8, -1e-4, 5e-4, -5e-4, 0.00097650, -0.00097650, 0.00097658, -0.00097658, 0.001, -0.002, 0.5, -200};
  static const double FC[] = {0, 1e-10, 1e-9, -1e-3, 2e-3, 0.00390620, -0.00390620, 0.00390626, -0.00390626, 0.004, -0.0101, 1.0, -70, 3e-3, -3e-3};
  static const double RT[] = {0, 0.4, -0.4, 1.6, -1.6, 700.25, -700.25, 8190.5, -8190.5, 8191.5, -8191.5, 8192, -8192, 9000, -20000};
  static const double FR[] = {0, 0.00004, 0.00006, -0.5, 0.9, -0.9, 1.6382, -1.6382, 1.63835, 1.639, -1.639, 2, -3, 100, -5000};
  for (int v = 0; v < 15; v++) for (int fl = 0; fl < 32; fl += (v % 3 == 0 ? 1 : 31)) {
    memset(m.get(), 0, sizeof *m); auto &h = m->header; h.msg_num = (uint16_t)s.num; h.stn_id = (uint16_t)(100 + v); h.tow_ms = cons == GLO ? (uint32_t)(v % 7) * 86400000u + (v % 2 ? 86399999u - (uint32_t)v : (uint32_t)v) : 604799999u - (uint32_t)v * 1000; h.multiple = v & 1; h.iods = (uint8_t)(v & 7); h.steering = v & 3; h.ext_clock = (v >> 1) & 3; h.div_free = v & 1; h.smooth = v & 7; h.reserved = (uint8_t)v;
    for (int i = 0; i < 64; i++) h.satellite_mask[i] = q.sat_mask >> (63 - i) & 1; for (int i = 0; i < 32; i++) h.signal_mask[i] = q.sig_mask >> (31 - i) & 1; for (size_t i = 0; i < q.cells.size(); i++) h.cell_mask[i] = q.cells[i];
    for (int i = 0; i < ns; i++) { m->sats[i].rough_range_ms = i ? 70.25 + i : rough; m->sats[i].glo_fcn = (uint8_t)((v + i) % 14); m->sats[i].rough_range_rate_m_s = RT[(v + 4 * i) % 15]; }
    std::vector<int> so; for (int i = 0; i < ns * ng; i++) if (q.cells[(size_t)i]) so.push_back(i / ng);
    for (int i = 0; i < nc; i++) {
      auto &g = m->signals[i]; double R = std::round(m->sats[so[(size_t)i]].rough_range_ms * 1024) / 1024; int w = (v + 2 * i) % 15;
      g.pseudorange_ms = R + FP[w]; g.carrier_phase_ms = R + FC[w]; g.lock_time_s = i == 0 ? lock4((uint32_t)v % 16) * 1.5 : 3.3 * v; g.hca_indicator = (v + i) & 1; g.cnr = i == 0 ? v * 4.54 : 63.4 - v; g.flags.data = (uint8_t)(i == 0 ? fl : 31); g.range_rate_m_s = std::trunc(m->sats[so[(size_t)i]].rough_range_rate_m_s) + FR[(v + i) % 15];
    }
    std::string what = fmt("rough range %.6f, values %d, flags %x", rough, v, fl); Bytes e; c.step(); c.traced(); if (!encode(c, s, m.get(), e, what.c_str())) return;
    memset(d.get(), 0x3C, sizeof *d); rtcm3_rc rc = decode(s, e, d.get()); CHK(c, rc == RC_OK, "%s: what was encoded is refused", what.c_str()); if (rc != RC_OK) return; c.state(hash_bytes(e.data(), e.size()));
    auto &k = d->header;
    CHK(c, k.msg_num == h.msg_num && k.stn_id == h.stn_id && k.tow_ms == (cons == GLO ? h.tow_ms % 86400000u : h.tow_ms) && k.multiple == h.multiple && k.iods == h.iods && k.steering == h.steering && k.ext_clock == h.ext_clock && k.div_free == h.div_free && k.smooth == h.smooth, "%s: header comes back different (time %u as %u)", what.c_str(), h.tow_ms, k.tow_ms);
    if (cons == GLO) CHK(c, e[3] >> 5 == (int)(h.tow_ms / 86400000u), "%s: day of week of %u is sent as %d", what.c_str(), h.tow_ms, e[3] >> 5);
    CHK(c, !memcmp(k.satellite_mask, h.satellite_mask, 64) && !memcmp(k.signal_mask, h.signal_mask, 32) && !memcmp(k.cell_mask, h.cell_mask, q.cells.size()), "%s: masks come back different", what.c_str());
    for (int i = 0; i < ns; i++) {
      double R = std::round(m->sats[i].rough_range_ms * 1024) / 1024; if (R >= 0 && R < 255) CHK(c, std::fabs(d->sats[i].rough_range_ms - R) < 1e-9, "%s: rough range %.6f comes back as %.6f", what.c_str(), R, d->sats[i].rough_range_ms);
      if (kind == 5) { CHK(c, d->sats[i].glo_fcn == m->sats[i].glo_fcn, "%s: satellite information comes back different", what.c_str()); double t = std::fabs(m->sats[i].rough_range_rate_m_s); if (t < 8191) CHK(c, std::fabs(d->sats[i].rough_range_rate_m_s - m->sats[i].rough_range_rate_m_s) <= 1, "%s: rough rate %.4f comes back as %.4f", what.c_str(), m->sats[i].rough_range_rate_m_s, d->sats[i].rough_range_rate_m_s); }
    }
    for (int i = 0; i < nc; i++) {
      auto &g = m->signals[i], &r = d->signals[i]; double R = std::round(m->sats[so[(size_t)i]].rough_range_ms * 1024) / 1024; bool rough_ok = R >= 0 && R < 255; int sat = so[(size_t)i];
      auto tri = [&](const char *n, bool was, double fine, double lim, double res, bool now, double a, double b) {
        bool in = std::fabs(fine) < lim - res, out = std::fabs(fine) > lim;
        if (!was || out || !rough_ok) CHK(c, !now, "%s: %s that is invalid or does not fit its field comes back valid (%.9f as %.9f)", what.c_str(), n, a, b);
        else if (in) CHK(c, now, "%s: %s %.9f comes back invalid", what.c_str(), n, a);
        if (was && now) CHK(c, std::fabs(a - b) <= res * 0.5001 + 1e-12, "%s: %s %.9f comes back as %.9f", what.c_str(), n, a, b);
      };
      tri("range", g.flags.fields.valid_pr, g.pseudorange_ms - R, std::ldexp(1, -10), std::ldexp(1, -24), r.flags.fields.valid_pr, g.pseudorange_ms, r.pseudorange_ms);
      tri("phase", g.flags.fields.valid_cp, g.carrier_phase_ms - R, std::ldexp(1, -8), std::ldexp(1, -29), r.flags.fields.valid_cp, g.carrier_phase_ms, r.carrier_phase_ms);
      if (kind == 5) {
        double t = m->sats[sat].rough_range_rate_m_s; rough_ok = std::fabs(t) < 8192; if (std::fabs(t) > 8191 && std::fabs(t) < 8192) continue;
        double fine = g.range_rate_m_s - d->sats[sat].rough_range_rate_m_s; if (!rough_ok) fine = 0;
        tri("rate", g.flags.fields.valid_dop, fine, 1.6384, 0.0001, r.flags.fields.valid_dop, g.range_rate_m_s, r.range_rate_m_s);
      } else CHK(c, !r.flags.fields.valid_dop, "%s: a rate appears in MSM4", what.c_str());
      double lk = g.flags.fields.valid_lock ? g.lock_time_s : 0, want = 0; for (uint32_t z = 0; z < 16; z++) if (lock4(z) <= lk) want = lock4(z);
      CHK(c, std::fabs(r.lock_time_s - want) < 1e-9, "%s: lock time %.4f comes back as %.4f", what.c_str(), lk, r.lock_time_s);
      CHK(c, r.hca_indicator == g.hca_indicator, "%s: half-cycle indicator changes", what.c_str());
      double cw = g.flags.fields.valid_cnr ? std::round(g.cnr) : 0; if (cw >= 64) cw = 0; CHK(c, r.flags.fields.valid_cnr == (cw > 0), "%s: signal strength %.2f comes back %s", what.c_str(), cw, r.flags.fields.valid_cnr ? "valid" : "invalid"); if (cw > 0) CHK(c, r.cnr == cw, "%s: signal strength %.2f comes back as %.2f", what.c_str(), g.cnr, r.cnr);
    }
  }
}
// ---- values between the grid points of the station and bias messages
static void stations(Ctx &c) {
  int ht = (int)c.choose(2, "with height"), k = (int)c.choose(40, "coordinate"), sg = (int)c.choose(2, "sign"); static std::vector<Shape> v; if (v.empty()) { v.push_back(m1005()); v.push_back(m1006()); } const Shape &s = v[(size_t)ht];
  double base = k < 38 ? std::ldexp(1, k) * 0.0001 : k == 38 ? 13743895.3471 : 6378137.00005; if (base > 13743895.3471) base = 13743895.3471; if (sg) base = -base;
  for (double e : {0.0, 0.00003, -0.00003, 0.00006}) for (double hv : {0.0, 1.23456, -1.0, 6.5535, 6.55352, 7.0, 1000.0, 3.00004, 3.00006}) {
    rtcm_msg_1006 m, d; memset(&m, 0, sizeof m); memset(&d, 0x3C, sizeof d); rtcm_msg_1005 &q = m.msg_1005; q.stn_id = 77; q.ITRF = 33; q.GPS_ind = 1; q.GAL_ind = 1; q.osc_ind = 1; q.quart_cycle_ind = 2; q.arp_x = base + e; q.arp_y = -base / 2 + e; q.arp_z = base / 3 - e; m.ant_height = hv;
    if (std::fabs(q.arp_x) > 13743895.3471) continue; std::string what = fmt("x %.5f, height %.5f", q.arp_x, hv); Bytes b; c.step(); c.traced(); if (!encode(c, s, &m, b, what.c_str())) return;
    rtcm3_rc rc = decode(s, b, &d); CHK(c, rc == RC_OK, "%s: refused", what.c_str()); if (rc != RC_OK) return; c.state(hash_bytes(b.data(), b.size()));
    const rtcm_msg_1005 &p = d.msg_1005; CHK(c, std::fabs(p.arp_x - q.arp_x) < 0.0000501 && std::fabs(p.arp_y - q.arp_y) < 0.0000501 && std::fabs(p.arp_z - q.arp_z) < 0.0000501, "%s: position comes back as %.5f %.5f %.5f", what.c_str(), p.arp_x, p.arp_y, p.arp_z);
    CHK(c, p.stn_id == 77 && p.ITRF == 33 && p.GPS_ind == 1 && p.GLO_ind == 0 && p.GAL_ind == 1 && p.ref_stn_ind == 0 && p.osc_ind == 1 && p.quart_cycle_ind == 2, "%s: flags change", what.c_str());
    if (ht) { double w = hv < 0 ? 0 : hv > 6.5535 ? 6.5535 : hv; CHK(c, std::fabs(d.ant_height - w) < 0.0000501, "%s: height comes back as %.5f", what.c_str(), d.ant_height); }
    if (!ht && hv != 0) break;
  }
}
static void biases(Ctx &c) {
  int mask = (int)c.choose(16, "mask"), ind = (int)c.choose(2, "indicator"), k = (int)c.choose(60, "value"); static std::vector<Shape> v; if (v.empty()) for (int i = 0; i < 16; i++) v.push_back(m1230(i)); const Shape &s = v[(size_t)mask];
  double base = k < 30 ? k * 21.8417 : -(k - 30) * 21.8417;
  for (double e : {0.0, 0.009, -0.009, 0.011}) {
    rtcm_msg_1230 m, d; memset(&m, 0, sizeof m); memset(&d, 0x3C, sizeof d); m.stn_id = 9; m.bias_indicator = (uint8_t)ind; m.fdma_signal_mask = (uint8_t)mask; double *p[4] = {&m.L1_CA_cpb_meter, &m.L1_P_cpb_meter, &m.L2_CA_cpb_meter, &m.L2_P_cpb_meter}, *q[4] = {&d.L1_CA_cpb_meter, &d.L1_P_cpb_meter, &d.L2_CA_cpb_meter, &d.L2_P_cpb_meter};
    for (int i = 0; i < 4; i++) *p[i] = (base + e) * (i == 0 ? 1 : i == 1 ? -1 : i == 2 ? 0.5 : -0.25);
    std::string what = fmt("bias %.4f", base + e); Bytes b; c.step(); c.traced(); if (!encode(c, s, &m, b, what.c_str())) return; rtcm3_rc rc = decode(s, b, &d); CHK(c, rc == RC_OK, "%s: refused", what.c_str()); if (rc != RC_OK) return; c.state(hash_bytes(b.data(), b.size()));
    CHK(c, d.stn_id == 9 && d.bias_indicator == ind && d.fdma_signal_mask == mask, "%s: header changes", what.c_str());
    for (int i = 0; i < 4; i++) { double w = mask >> (3 - i) & 1 ? *p[i] : 0; CHK(c, std::fabs(*q[i] - w) < 0.01001, "%s, mask %x: bias %d is %.4f and comes back as %.4f", what.c_str(), mask, i, w, *q[i]); }
  }
}
int main(int argc, char **argv) {
  bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough");
  std::vector<Shape> v, o = other_shapes(), m = msm_shapes(th); for (auto &s : o) if (s.enc) v.push_back(s); for (auto &s : m) if (s.enc) v.push_back(s); prepare(std::move(v));
  Spec s; s.property = "C08";
  s.rule = "every encodable message shape x every field x backgrounds x values (as C06): decode, encode, decode, compare; legacy observations as structures: every validity flag combination of one satellite, range/phase flags of up to three, 1..32 satellites, ranges around whole ambiguities x L2 differences x phase differences, every signal strength and lock time; MSM4/5 as structures over rough ranges, fine parts, rates and flags around every limit; station coordinates, heights and biases between grid points";
  s.assumptions = {"signal strengths are at most 63.75 dB-Hz and lock times are not negative", "legacy range fields beyond the standard's range (one light-millisecond unit) are not compared"};
  s.scenarios = {{"round_trip", round_trip}, {"flags", flags}, {"many", many}, {"ranges", ranges}, {"strengths", strengths}, {"locks", locks}, {"headers", headers}, {"msm_values", msm_values}, {"stations", stations}, {"biases", biases}};
  return run(argc, argv, s);
}
