// C24: u-blox raw measurements become one complete, correctly scaled SBP epoch
#include "ubxpipe.hpp"
using namespace mc; using namespace ubxref; using namespace ubxpipe;
// ------------------------------------------------------------------ what was measured
struct M { double P, L; float D; int gnss, sat, sig, lock, cno, trk; };
struct R { double tow; int wn; int leap, rec; std::vector<M> m; };
static uint64_t dbl(double v) { uint64_t r; memcpy(&r, &v, 8); return r; }
static uint64_t flt(float v) { uint32_t r; memcpy(&r, &v, 4); return r; }
static const Shape &shape(int n) { static std::vector<std::unique_ptr<Shape>> s(256); if (!s[(size_t)n]) s[(size_t)n].reset(new Shape(rxm_rawx(n))); return *s[(size_t)n]; }
static Bytes bytes(const R &r, int noise = 0) {
  const Shape &s = shape((int)r.m.size()); Raw w; uint64_t z = noise ? 0xA7 : 0;     // noise: bytes that say nothing about the measurement
  w = {dbl(r.tow), (uint64_t)r.wn, (uint64_t)r.leap, r.m.size(), (uint64_t)r.rec, 1, z, z};
  for (auto &m : r.m) for (uint64_t v : {dbl(m.P), dbl(m.L), flt(m.D), (uint64_t)m.gnss, (uint64_t)m.sat, (uint64_t)m.sig, noise ? (uint64_t)7 : (uint64_t)0, (uint64_t)m.lock, (uint64_t)m.cno, z, z, z, (uint64_t)m.trk, z}) w.push_back(v);
  return s.bytes(w);
}
// ------------------------------------------------------------------ the same in SBP, from the two interface descriptions
static int code_of(int g, int s) {
  switch (g) {
    case 0: return s == 0 ? 0 : s == 3 ? 7 : s == 4 ? 1 : -1;                       // L1 C/A, L2 CL, L2 CM
    case 1: return s == 0 ? 2 : -1;                                                 // L1 C/A
    case 2: return s == 0 ? 15 : s == 1 ? 14 : s == 5 ? 20 : s == 6 ? 21 : -1;      // E1C, E1B, E5bI, E5bQ
    case 3: return s == 0 || s == 1 ? 12 : s == 2 || s == 3 ? 13 : -1;              // B1I, B2I
    case 5: return s == 0 ? 31 : s == 4 ? 35 : s == 5 ? 36 : -1;                    // L1 C/A, L2 CM, L2 CL
    case 6: return s == 0 ? 3 : s == 2 ? 4 : -1;                                    // L1OF, L2OF
    default: return -1;
  }
}
static int sat_of(int g, int s) { return g == 5 ? s + 192 : s; }
static int lock_of(int ms) { int n = 0; while (n < 15 && ms >= 1 << (n + 5)) n++; return n; }
static std::string range_text(const M &m) { return fmt("[gnss %d sat %d sig %d P %.6f L %.6f D %.6f lock %d cno %d trk %02x]", m.gnss, m.sat, m.sig, m.P, m.L, (double)m.D, m.lock, m.cno, m.trk); }
static bool judged(const M &m) {       // the satellite numbers u-blox gives to each constellation
  static const int lo[7] = {1, 120, 1, 1, 0, 1, 1}, hi[7] = {32, 158, 36, 63, 0, 10, 32};
  return m.gnss < 7 && m.gnss >= 0 && m.sat >= lo[m.gnss] && m.sat <= hi[m.gnss];
}
static void cell(Ctx &c, const M &m, const sbp_packed_obs_content_t &o, const std::string &how) {
  std::string t = how + " " + range_text(m);
  CHK(c, o.sid.code == code_of(m.gnss, m.sig), "%s: sent with code %d, expected %d", t.c_str(), o.sid.code, code_of(m.gnss, m.sig));
  if (judged(m)) CHK(c, o.sid.sat == sat_of(m.gnss, m.sat), "%s: sent as satellite %d, expected %d", t.c_str(), o.sid.sat, sat_of(m.gnss, m.sat));
  int fl = (m.trk & 7) | 8;
  double P = m.P * 50; bool pv = P >= 0 && P <= 4294967295.0;
  if (pv) CHK(c, fabs((double)o.P - P) <= 1.0 + 1e-9 * fabs(P), "%s: pseudorange sent as %u units of 2 cm, expected %.3f", t.c_str(), o.P, P);
  else { fl &= ~1; CHK(c, o.P == 0, "%s: a pseudorange that does not fit was sent as %u", t.c_str(), o.P); }
  bool lv = m.L >= -2147483648.0 && m.L < 2147483647.0;
  if (lv) CHK(c, fabs((double)o.L.i + o.L.f / 256.0 - m.L) <= 0.5 / 256 + 1e-15 * fabs(m.L), "%s: phase sent as %d + %d/256", t.c_str(), o.L.i, o.L.f);
  else { fl &= ~6; CHK(c, o.L.i == 0 && o.L.f == 0, "%s: a phase that does not fit was sent as %d + %d/256", t.c_str(), o.L.i, o.L.f); }
  bool dv = m.D >= -32768.f && m.D < 32767.f;
  if (dv) CHK(c, fabs((double)o.D.i + o.D.f / 256.0 - (double)m.D) <= 0.5 / 256, "%s: Doppler sent as %d + %d/256", t.c_str(), o.D.i, o.D.f);
  else { fl &= ~8; CHK(c, o.D.i == 0 && o.D.f == 0, "%s: a Doppler that does not fit was sent as %d + %d/256", t.c_str(), o.D.i, o.D.f); }
  CHK(c, o.flags == fl, "%s: flags %02x, expected %02x", t.c_str(), o.flags, fl);
  CHK(c, o.cn0 == (m.cno > 63 ? 255 : 4 * m.cno), "%s: signal strength sent as %d quarter dB", t.c_str(), o.cn0);
  CHK(c, o.lock == lock_of(m.lock), "%s: lock indicator %d, expected %d", t.c_str(), o.lock, lock_of(m.lock));
}
// the observation messages among out are exactly the epoch
static void epoch(Ctx &c, const R &r, const std::vector<Emit> &out, uint16_t sender, const std::string &how, bool only = true) {
  std::vector<const M *> k; for (auto &m : r.m) if (code_of(m.gnss, m.sig) >= 0) k.push_back(&m);
  size_t total = k.empty() ? 1 : (k.size() + 13) / 14, at = 0, i = 0;
  double ms = r.tow * 1000; double rest = 0;
  for (auto &e : out) {
    if (e.type != SbpMsgObs) { if (only) c.fail("other", "%s: sent %.200s", how.c_str(), ubxpipe::show(e).c_str()); continue; }
    auto &o = e.m.obs; std::string t = how + fmt(" message %zu", i);
    CHK(c, e.sender == sender, "%s: sent by %04x, configured %04x", t.c_str(), e.sender, sender);
    CHK(c, i < total && o.header.n_obs == (total << 4 | i), "%s: numbered %d of %d, expected %zu of %zu", t.c_str(), o.header.n_obs & 15, o.header.n_obs >> 4, i, total);
    CHK(c, o.n_obs <= 14, "%s: holds %d measurements", t.c_str(), o.n_obs);
    // the time: within a millisecond's fraction of the message's, in its week
    int wn = o.header.t.wn; double got = (double)o.header.t.tow + o.header.t.ns_residual * 1e-6;
    CHK(c, o.header.t.tow < 604800000u, "%s: time of week %u ms", t.c_str(), o.header.t.tow);
    CHK(c, abs(o.header.t.ns_residual) <= 500000, "%s: residual %d ns", t.c_str(), o.header.t.ns_residual);
    double d = got - ms; if (r.wn) d += (wn - r.wn) * 604800000.0; else { CHK(c, (uint16_t)wn == 65535, "%s: week %d, the message's is unknown", t.c_str(), wn); if (d < -3e8) d += 604800000.0; }
    CHK(c, fabs(d) <= 2e-6, "%s: time %d/%u ms %d ns, the message's is %d/%.9f s", t.c_str(), wn, o.header.t.tow, o.header.t.ns_residual, r.wn, r.tow); (void)rest;
    for (int j = 0; j < o.n_obs && j < 14; j++) { CHK(c, at < k.size(), "%s: measurement %zu of %zu", t.c_str(), at, k.size()); if (at < k.size()) cell(c, *k[at], o.obs[j], how); at++; }
    c.state(hash_str(ubxpipe::show(e))); c.traced(1); i++;
  }
  CHK(c, i == total, "%s: %zu observation messages for %zu measurements, expected %zu", how.c_str(), i, k.size(), total);
  CHK(c, at == k.size(), "%s: %zu measurements sent of %zu", how.c_str(), at, k.size());
}
static const M BASE = {22345678.9125, 117424567.3671, -1234.56f, 0, 7, 0, 5000, 42, 7};
static void one(Ctx &c, const R &r, const std::string &how, int noise = 0) { U u; ubx_set_sender_id(u.st(), 0x1234); u.body(bytes(r, noise)); epoch(c, r, u.out, 0x1234, how); c.step(); }
// ------------------------------------------------------------------ scenarios
static const int FIRST[8] = {1, 120, 1, 1, 1, 1, 1, 1}, LAST[8] = {32, 158, 36, 63, 10, 10, 32, 10};
static void signals(Ctx &c) {          // every constellation, signal and satellite number
  int g = c.choose(8, "gnss"), s = c.choose(256, "sig"); if (!c.thorough && s > 15 && s < 250 && s % 16) return;
  R r{300000.123, 2100, 18, 1, {}};
  for (int sat = FIRST[g]; sat <= LAST[g]; sat++) { M m = BASE; m.gnss = g; m.sig = s; m.sat = sat; m.P += sat; r.m.push_back(m); }
  one(c, r, "all satellites");
}
static void mixed(Ctx &c) {              // what is left out leaves no trace on its neighbours
  static const int K[6][2] = {{0, 0}, {0, 1}, {2, 5}, {4, 0}, {6, 2}, {3, 9}};
  int n = c.choose(c.thorough ? 9 : 6, "count"); R r{1.5, 2200, 18, 1, {}};
  for (int i = 0; i < n; i++) { int k = c.choose(6, "signal"); M m = BASE; m.gnss = K[k][0]; m.sig = K[k][1]; m.sat = 1 + i; m.P += 1000 * i; m.L = -m.L * i; m.cno = 10 + i; m.lock = 100 << i; m.trk = i; if (i == 2) m.P = -1; if (i == 3) m.L = 1e15; r.m.push_back(m); }
  one(c, r, "mixed signals");
}
static void counts(Ctx &c) {           // every number of measurements, every number of them left out
  int n = c.choose(211, "measurements"), how = c.choose(6, "left out"); R r{604799.9, 2047, 18, 1, {}};
  for (int i = 0; i < n; i++) {
    M m = BASE; m.P += 1000 * i; m.L += i; m.D = (float)i; m.sat = 1 + i % 32; m.sig = i / 32 % 2 ? 3 : 0; m.cno = i % 64; m.trk = i % 8; m.lock = i * 100;
    bool drop = how == 1 ? i % 2 == 0 : how == 2 ? i < n - 1 : how == 3 ? i % 15 == 14 : how == 4 ? i >= 14 : how == 5 ? true : false;
    if (drop) m.sig = 9; r.m.push_back(m);
  }
  one(c, r, "counts", n % 2);
}
static void values(Ctx &c) {           // every field over its boundary values, two fields at a time
  static const double P[] = {22345678.9125, 0, 0.0199999, 0.02, 0.5, 1e7, 20000000.01, 85899345.9, 85899345.92, 85899346, 1e12, 1e300, -0.001, -1, -1e9, NAN, INFINITY, -INFINITY, 40123456.789, 4294967.295, 42949672.96};
  static const double L[] = {117424567.3671, 0, -0.0, 1 / 256., 1 / 512., 1 / 512. - 1e-9, 1 / 512. + 1e-9, 1 - 1 / 512., 1 - 1 / 512. - 1e-6, 0.999, -1 / 256., -1 / 512., -1, -0.999, -0.0001, 255.999, 2147483646.5, 2147483646.999, 2147483647, 2147483648., -2147483647.5, -2147483648., -2147483648.5, 1e12, -1e12, 1e300, NAN, INFINITY, -INFINITY, 16777216.25, -123456789.87654};
  static const float D[] = {-1234.56f, 0, -0.f, 1 / 256.f, 1 / 512.f, 0.9979f, 0.9985f, -1 / 256.f, -1 / 600.f, -1, -0.99f, 32766.5f, 32766.999f, 32767, 32768, -32767.5f, -32768, -32768.5f, 65536, 1e30f, NAN, INFINITY, -INFINITY, 4095.9999f};
  static const int LK[] = {5000, 0, 31, 32, 63, 64, 127, 128, 1023, 1024, 32767, 32768, 64500, 65535}, CN[] = {42, 0, 1, 31, 62, 63, 64, 65, 127, 128, 254, 255}, TR[] = {7, 0, 1, 2, 3, 4, 5, 6, 8, 15, 16, 0xF8, 255};
  M m = BASE;
  m.P = P[c.dev(21, "range")]; m.L = L[c.dev(31, "phase")]; m.D = D[c.dev(24, "Doppler")]; m.lock = LK[c.dev(14, "lock")]; m.cno = CN[c.dev(12, "strength")]; m.trk = TR[c.dev(13, "status")];
  int nz = c.dev(2, "other bytes");
  R r{1234.5, 2100, 18, 1, {BASE, m, BASE}}; one(c, r, "values", nz);
}
static void grids(Ctx &c) {            // all lock times, strengths, status bytes; fine grids of the fractions
  static const int N[] = {521, 3, 3, 64, 64, 64}; int k = c.choose(6, "field"), b = c.choose(N[k], "block"); R r{1234.5, 2100, 18, 1, {}};
  for (int i = 0; i < 126; i++) {
    M m = BASE; int v = b * 126 + i;
    if (k == 0) { if (v > 65535) break; m.lock = v; } else if (k == 1) { if (v > 255) break; m.cno = v; } else if (k == 2) { if (v > 255) break; m.trk = v; }
    else if (k == 3) m.L = (b % 2 ? -1 : 1) * (1000.0 * b + v / 3072.0); else if (k == 4) m.D = (b % 2 ? -1.f : 1.f) * (400.f * (float)b + (float)(v % 6144) / 1536.f); else m.P = 1e5 * b + v * 0.0031;
    r.m.push_back(m);
  }
  one(c, r, "grid");
}
static void times(Ctx &c) {
  static const int WN[] = {2100, 0, 1, 1023, 1024, 2047, 2048, 4095, 32766};
  static const double S[] = {0, 0.001, 0.9999, 1, 59.5, 86400, 302400, 518400.25, 604799, 604799.9};
  int w = c.choose(9, "week"), k = c.choose(10, "second"), f = c.choose(c.thorough ? 2001 : 401, "fraction"), n = c.choose(4, "measurements");
  double t = S[k] + f * (c.thorough ? 5e-8 : 2.5e-7); static const int CNT[] = {0, 1, 14, 15}; if (n != 1 && (f % 50 || w > 1)) return;
  if (k == 9) t = 604800 - f * (c.thorough ? 1e-6 : 5e-6) - 1e-9; if (t >= 604800) t = 604799.999999;
  R r{t, WN[w], 18, 1, std::vector<M>((size_t)CNT[n], BASE)}; one(c, r, "times");
}
// ------------------------------------------------------------------ histories: each message makes its own epoch, whatever came before
static Bytes other(int k) {
  switch (k) { case 0: { auto s = nav_velecef(); auto r = s.pattern(0); r[0] = 5000; return s.bytes(r); } case 1: { auto s = nav_pvt(); auto r = s.pattern(2); r[0] = 7000; return s.bytes(r); }
    case 2: { auto s = nav_status(); auto r = s.pattern(0); return s.bytes(r); } default: return {0x0A, 0x09, 2, 0, 1, 2}; }
}
static void histories(Ctx &c) {
  int len = c.choose(c.thorough ? 6 : 4, "length"); U u; ubx_set_sender_id(u.st(), 0x4321); bool damaged;
  for (int i = 0; i <= len; i++) {
    int k = c.choose(9, "message"); R r{100.0 + i, 2100, 18, i & 1, {}}; damaged = false; Bytes b;
    if (k == 0) {} else if (k == 1) r.m.assign(1, BASE); else if (k == 2) { r.m.assign(29, BASE); for (size_t j = 0; j < 29; j++) r.m[j].P += (double)j; } else if (k == 3) { r.m.assign(14, BASE); r.m[3].gnss = 4; r.wn = 0; }
    else if (k == 4) { r.m.assign(2, BASE); r.tow = 604799.9999; r.m[0].L = NAN; }
    if (k <= 4) b = bytes(r, i & 1);
    else if (k == 5) { r.m.assign(3, BASE); b = bytes(r); b.resize(b.size() - 1); damaged = true; }     // shorter than its count says
    else if (k < 8) { u.body(other(k == 6 ? 0 : 2 + i % 2)); u.take(); continue; }
    else { u.body(other(1)); u.take(); continue; }
    u.out.clear(); u.body(b); std::string how = fmt("message %d of kind %d", i, k);
    if (damaged) { CHK(c, u.out.empty(), "%s: %zu messages sent for a truncated one", how.c_str(), u.out.size()); } else epoch(c, r, u.out, 0x4321, how);
    c.step();
  }
}
static void streamed(Ctx &c) {         // the same from a byte stream, two epochs, reads of any size
  int n = c.choose(5, "first"), m = c.choose(5, "second"), sz = c.choose(6, "read size"); static const int N[] = {0, 1, 14, 43, 127}, Z[] = {0, 1, 7, 64, 511, 4096};
  R a{10.25, 2100, 18, 1, {}}, b{11.25, 2100, 18, 1, {}}; for (int i = 0; i < N[n]; i++) { M x = BASE; x.P += i; x.sat = 1 + i % 32; a.m.push_back(x); } for (int i = 0; i < N[m]; i++) { M x = BASE; x.L += i; x.gnss = 2; x.sat = 1 + i % 36; b.m.push_back(x); }
  Bytes s = frame(bytes(a)); append(s, frame(bytes(b, 1))); U u; ubx_set_sender_id(u.st(), 7); std::vector<size_t> sp; if (Z[sz]) for (size_t q = 0; q < s.size(); q += (size_t)Z[sz]) sp.push_back((size_t)Z[sz]);
  u.stream(s, sp); std::vector<Emit> x, y; for (auto &e : u.out) (e.type == SbpMsgObs && e.m.obs.header.t.tow == 10250 ? x : y).push_back(e);
  epoch(c, a, x, 7, "first epoch"); epoch(c, b, y, 7, "second epoch");
  for (size_t i = 0; i < u.out.size(); i++) CHK(c, (u.out[i].m.obs.header.t.tow == 10250) == (i < x.size()), "epochs interleaved at message %zu", i);
}
int main(int argc, char **argv) {
  Spec s; s.property = "C24";
  s.rule = "For every RXM-RAWX message of the space, the real ubx_sbp converter's observation messages are compared cell by cell with the measurements the message was built from.";
  s.assumptions = {"libsbp and libswiftnav are the stand-ins under shim/", "a pseudorange may be rounded either way to a unit of 2 cm", "satellite numbers u-blox does not assign are not judged", "more than 210 measurements do not fit one SBP epoch and are not judged"};
  s.scenarios = {{"signals", signals, 0, 0, false}, {"mix", mixed, 0, 0, false}, {"counts", counts, 0, 0, false}, {"values", values, 2, 4, false}, {"grids", grids, 0, 0, false}, {"times", times, 0, 0, false}, {"histories", histories, 0, 0, false}, {"streamed", streamed, 0, 0, false}};
  return run(argc, argv, s);
}
