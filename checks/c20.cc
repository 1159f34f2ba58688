// C20: SBP observations to RTCM: every epoch once, under its sender and time, with the values that were observed
#include "s2r.hpp"
using namespace mc; using namespace s2r; using msmref::FIRST; using msmref::NUM; using msmref::SIGNALS;
static const char *MODES[] = {"1004/1012", "MSM4", "MSM5"};
static const uint32_t T = 345600000; static const int W = 2100;
// ---- sequences of messages
struct Op { int kind; uint16_t sender; int dt; int size, idx; int content; };
static std::vector<Op> ops(bool more) {
  std::vector<Op> v;
  const int seq[][2] = {{1, 0}, {2, 0}, {2, 1}, {3, 1}, {3, 2}, {0, 0}, {2, 5}, {15, 15}};
  for (uint16_t s : {0x1042, 0x2F99}) for (int dt : {0, 1, -1}) for (auto &q : seq) {
    if (s == 0x2F99 && (dt < 0 || (q[0] != 2 && !more))) continue; if (dt < 0 && q[0] != 1 && q[0] != 2) continue;
    v.push_back({0, s, dt * 1000, q[0], q[1], 0});
  }
  v.push_back({0, 0x1042, 0, 2, 0, 1}); v.push_back({0, 0x1042, 0, 2, 1, 1}); v.push_back({0, 0x1042, 1000, 1, 0, 2}); v.push_back({0, 0x1042, 604800000, 2, 0, 0}); v.push_back({0, 0x1042, -604800000, 2, 0, 0});
  for (int k = 1; k <= 3; k++) v.push_back({k, 0x3777, 0, 0, 0, 0});   // station position, biases, log message of another sender
  v.push_back({4, 0x1042, 0, 0, 0, 0}); v.push_back({5, 0x1042, 0, 0, 0, 0});   // a time outside the week; a message without a header
  return v;
}
// epochs less than a second apart and messages without observations
static std::vector<Op> close_ops(bool more) {
  std::vector<Op> v; std::vector<int> dts = {0, 1, 200, 999, -1, -800}; if (more) for (int d : {50, 500, -50, -500, 1001, -1001}) dts.push_back(d);
  for (int dt : dts) for (auto &q : {std::make_pair(2, 0), {2, 1}, {3, 1}, {3, 0}, {3, 2}}) { if (dt && (q.second == 2 || (q.first == 3 && q.second == 1 && !more))) continue; v.push_back({0, 0x1042, dt, q.first, q.second, 0}); }
  for (auto &q : {std::make_pair(2, 0), {2, 1}, {3, 1}, {3, 0}, {3, 2}}) v.push_back({0, 0x1042, 0, q.first, q.second, 3});
  for (int dt : {1, -1, 1000, -1000}) v.push_back({0, 0x1042, dt, 3, 0, 3});
  v.push_back({0, 0x2F99, 0, 3, 1, 0}); v.push_back({0, 0x2F99, 0, 3, 1, 3});
  return v;
}
static std::vector<O> content(int n, int kind) {
  std::vector<O> v; if (kind == 3) return v; int s = 1 + n % 6; double r = 20000000.0 + 12345.68 * n;
  v.push_back(make(s, CODE_GPS_L1CA, r)); v.push_back(make(s, CODE_GPS_L2CM, r + 3.2)); v.push_back(make(s, CODE_GLO_L1OF, r, (s * 5 + 3) % 14)); v.push_back(make(s + 8, CODE_GAL_E1X, r));
  if (kind == 1) for (auto &o : v) o.flags &= ~1;          // nothing usable
  if (kind == 2) { v[0].flags |= 0x80; v[2].flags = 1; }   // excluded, range only
  return v;
}
static void run_ops(Ctx &c, const std::vector<Op> &few, const std::vector<Op> &many) {
  const std::vector<Op> &op = c.thorough ? many : few; uint32_t first = c.choose((uint32_t)op.size(), "first message"), mode = c.choose(c.thorough ? 3 : 2, "mode"); int depth = c.thorough ? 4 : 3;
  uint32_t i1 = c.choose((uint32_t)op.size(), "second message"); size_t n = op.size(); long runs = 1; for (int d = 2; d < depth; d++) runs *= (long)n;
  for (long x = 0; x < runs; x++) {
    Pair p(mode == 0 ? LEGACY : mode == 1 ? M5 : M4); p.all_glo(); int64_t now = (int64_t)W * WEEK + T; long y = x; std::string how = MODES[p.m.mode];
    for (int d = 0; d < depth + 1; d++) {
      Op o = d == depth ? Op{0, 0x1042, 1000000000, 1, 0, 0} : op[d == 0 ? first : d == 1 ? i1 : (size_t)(y % (long)n)]; if (d >= 2) y /= (long)n;   // the last message flushes what is left
      if (o.kind == 0) { now += o.dt; how += fmt("; obs %d/%d at %+d ms from %04x, content %d", o.idx, o.size, o.dt, o.sender, o.content); p.feed(c, o.sender, (uint32_t)(now % WEEK), (int)(now / WEEK), o.size, o.idx, content(d, o.content), how.c_str()); continue; }
      how += fmt("; other %d", o.kind); c.at("%s", how.c_str());
      if (o.kind == 1) { msg_base_pos_ecef_t b = {-2704026.25, -4253051.5, 3895878.75}; p.r.feed(&sbp2rtcm_base_pos_ecef_cb, o.sender, (uint8_t *)&b, sizeof b); std::vector<Bytes> f = p.r.take(); CHK(c, f.size() == 1 && number(unframe(c, f[0], how.c_str())) == 1006, "%s: %zu messages for a position", how.c_str(), f.size()); }
      if (o.kind == 2) { msg_glo_biases_t b = {15, 100, 200, 300, 400}; p.r.feed(&sbp2rtcm_glo_biases_cb, o.sender, (uint8_t *)&b, sizeof b); std::vector<Bytes> f = p.r.take(); CHK(c, f.size() == 1 && number(unframe(c, f[0], how.c_str())) == 1230, "%s: %zu messages for biases", how.c_str(), f.size()); }
      if (o.kind == 3) { const char *t = "\x06hello"; p.r.feed(&sbp2rtcm_sbp_log_cb, o.sender, (const uint8_t *)t, 6); std::vector<Bytes> f = p.r.take(); CHK(c, f.size() == 1 && number(unframe(c, f[0], how.c_str())) == 1029, "%s: %zu messages for a log message", how.c_str(), f.size()); }
      if (o.kind == 4) p.feed(c, o.sender, 604800000u, W, 1, 0, content(d, 0), how.c_str());
      if (o.kind == 5) { Bytes b = obs_msg(T, W, 1, 0, {}); b.pop_back(); p.r.feed(&sbp2rtcm_sbp_obs_cb, o.sender, b); p.settle(c, how.c_str()); }
      c.step();
    }
  }
}
static void sequences(Ctx &c) { static const std::vector<Op> few = ops(false), many = ops(true); run_ops(c, few, many); }
static void close_epochs(Ctx &c) { static const std::vector<Op> few = close_ops(false), many = close_ops(true); run_ops(c, few, many); }
// ---- times
static void times(Ctx &c) {
  uint32_t day = c.choose(8, "day"), li = c.choose(c.thorough ? 40 : 8, "leap seconds"), mode = c.choose(3, "mode"); static const int few[] = {-1, 18, 0, 17, 19, 37, 16, -2}; int leap = c.thorough ? (int)li - 2 : few[li]; bool known = li != 0;
  std::vector<int64_t> t;
  for (int h = 0; h <= 24; h++) for (int s = -45; s <= 45; s++) { if (h % 3 && (s < -2 || s > 2)) continue; t.push_back(h * 3600000ll + s * 1000); if (s > -3 && s < 3) { t.push_back(h * 3600000ll + s * 1000 + 1); t.push_back(h * 3600000ll + s * 1000 - 1); } }
  for (int ms = 0; ms < 1000; ms += c.thorough ? 1 : 37) t.push_back(7654000ll + ms);
  for (int64_t x : t) {
    int64_t tow = day * DAY + x; if (tow < 0 || tow > 4294967295ll) continue;
    Pair p((Mode)mode, known, leap); p.all_glo(); std::vector<O> v; double r = 21000000.02;
    for (auto s : {std::make_pair(3, (int)CODE_GPS_L1CA), {4, (int)CODE_GLO_L1OF}, {5, (int)CODE_BDS2_B1}, {6, (int)CODE_GAL_E1B}, {194, (int)CODE_QZS_L1CA}, {131, (int)CODE_SBAS_L1CA}}) v.push_back(make(s.first, s.second, r += 1000, (s.first * 5 + 3) % 14));
    p.feed(c, 0x1042, (uint32_t)tow, W, 1, 0, v, fmt("%s, time %lld, leap seconds %d%s", MODES[mode], (long long)tow, leap, known ? "" : " unknown").c_str());
  }
}
// ---- every satellite and code number, next to ordinary observations
static void signals(Ctx &c) {
  uint32_t code = c.choose(256, "code"), mode = c.choose(3, "mode");
  for (int sat = 0; sat < 256; sat++) for (int set = 0; set < (c.thorough ? 6 : 4); set++) {
    Pair p((Mode)mode, true, 18); if (set != 1) p.all_glo(); int fc = set == 1 || sat > NUM_SATS_GLO ? 7 : (sat * 5 + 3) % 14; std::vector<O> v; O x = make(sat, (int)code, 21234567.88, fc);
    if (set == 0 || set == 1) v = {x};
    if (set == 2) v = {make(7, CODE_GPS_L1CA, 22222222.22), x, make(8, CODE_GLO_L2OF, 22333333.34, (8 * 5 + 3) % 14), make(9, CODE_BDS2_B1, 36000000.04), make(9, CODE_GAL_E7X, 24000000.04)};
    if (set == 3) v = {x, make(7, CODE_GPS_L2P, 22222222.22), make(sat, CODE_GPS_L1CA, 21234570.12), make(sat, CODE_GLO_L1OF, 21234570.12, fc), x};
    if (set == 4) v = {make(sat, CODE_GPS_L1P, 21234570.12), make(sat, CODE_GLO_L1P, 21234570.12, fc), x, make(sat, CODE_GPS_L1CA, 21234570.12), make(sat, CODE_GPS_L2P, 21234577.12)};
    if (set == 5) v = {x, x, x};
    p.feed(c, 0x1042, T, W, 1, 0, v, fmt("%s, satellite %d code %u, set %d", MODES[mode], sat, code, set).c_str());
  }
}
// ---- the channel given for any satellite number, existing or not: only that satellite's own measurements are concerned
static void channels(Ctx &c) {
  uint32_t mode = c.choose(3, "mode"), sat = c.choose(256, "satellite");
  for (int f : {1, 8, 14}) for (int first = 0; first < 2; first++) {
    Pair p((Mode)mode); auto set = [&] { if (sat >= 1 && sat <= NUM_SATS_GLO) { p.glo((int)sat, f - 1); return; } sbp_gnss_signal_t sid; sid.sat = (u8)sat; sid.code = CODE_GLO_L1OF; sbp2rtcm_set_glo_fcn(sid, (u8)f, p.r.st()); };
    if (first) set(); p.all_glo(); if (!first) set();
    std::vector<O> v; for (int s : {1, 2, 14, 27, 28}) v.push_back(make(s, CODE_GLO_L1OF, 20000000.0 + s * 1000, !first && s == (int)sat ? f - 1 : (s * 5 + 3) % 14)); v.push_back(make(5, CODE_GPS_L1CA, 21000000.0));
    p.feed(c, 0x1042, T, W, 1, 0, v, fmt("%s, channel %d for satellite %u set %s", MODES[mode], f, sat, first ? "before all others" : "last").c_str());
  }
  if (sat < 1 || sat > NUM_SATS_GLO) return;
  for (int f = 0; f < 256; f++) {   // every channel number: 1 to 14 are known, the others stand for an unknown channel
    Pair p((Mode)mode); p.all_glo(); sbp_gnss_signal_t sid; sid.sat = (u8)sat; sid.code = CODE_GLO_L1OF; sbp2rtcm_set_glo_fcn(sid, (u8)f, p.r.st()); p.m.fcn[sat] = f >= 1 && f <= 14 ? f - 1 : -1;
    std::vector<O> v{make((int)sat, CODE_GLO_L1OF, 20000000.0, f >= 1 && f <= 14 ? f - 1 : 7), make(5, CODE_GPS_L1CA, 21000000.0)}; p.feed(c, 0x1042, T, W, 1, 0, v, fmt("%s, channel %d for satellite %u", MODES[mode], f, sat).c_str());
  }
}
// ---- values of one observation
static void values(Ctx &c) {
  static const int codes[] = {CODE_GPS_L1CA, CODE_GLO_L1OF, CODE_GPS_L2P, CODE_GLO_L2OF, CODE_GPS_L1P, CODE_BDS2_B1, CODE_GAL_E1X, CODE_GAL_E6B, CODE_QZS_L5X, CODE_SBAS_L1CA, CODE_BDS3_B3X, CODE_GLO_L1P};
  uint32_t ci = c.choose(12, "code"), mode = c.choose(3, "mode"), what = c.choose(6, "what"); int code = codes[ci], k = cons_of(code), fc = 7;
  auto one = [&](const O &o, const std::string &how) {
    Pair p((Mode)mode, true, 18); for (int s = 1; s <= NUM_SATS_GLO; s++) p.glo(s, fc); std::vector<O> v; O l1 = o;
    if (code == CODE_GPS_L2P) { l1 = make(o.sat, CODE_GPS_L1CA, o.P / 50.0 + 4.0); v.push_back(l1); } if (code == CODE_GLO_L2OF) { l1 = make(o.sat, CODE_GLO_L1OF, o.P / 50.0 + 4.0, fc); v.push_back(l1); }
    v.push_back(o); p.feed(c, 0x1042, T, W, 1, 0, v, fmt("%s, code %d, %s", MODES[mode], code, how.c_str()).c_str());
  };
  int sat = FIRST[k] + 2;
  switch (what) {
    case 0: for (int f = 0; f < 256; f++) for (int cn : {0, 1, 160}) { O o = make(sat, code, 23456789.12); o.flags = (uint8_t)f; o.cn0 = (uint8_t)cn; one(o, fmt("flags %02x, C/N0 %d", f, cn)); } break;
    case 1: for (int cn = 0; cn < 256; cn++) { O o = make(sat, code, 23456789.12); o.cn0 = (uint8_t)cn; o.lock = (uint8_t)(cn % 16); one(o, fmt("C/N0 %d, lock %d", cn, cn % 16)); } break;
    case 2: {   // ranges: around whole milliseconds and their 1024ths, and everything in between
      for (int ms = 0; ms < 290; ms += c.thorough ? 1 : 9) for (int q : {0, 1, 511, 512, 1023}) for (int d : {-3, -1, 0, 1, 2, 7300}) { double r = (ms + q / 1024.0) * C / 1000 + d * 0.02; if (r < 0 || r * 50 > 4294967295.0) continue; one(make(sat, code, r, fc), fmt("range %.2f", r)); }
      break; }
    case 3: for (double off : {0.0, 1.0, -1.0, 130.0, -130.0, 261.0, -261.0, 263.0, -263.0, 400.0, -400.0, 1100.0, -1100.0, 1300.0, -1300.0, 50000.0, -50000.0}) for (int q = 0; q < (c.thorough ? 400 : 40); q++) one(make(sat, code, 21000000.0 + q * 7.38, fc, 1.0, off), fmt("phase %.0f m from the range, step %d", off, q)); break;
    case 4: for (double rate = -9000; rate < 9000; rate += c.thorough ? 3.71 : 37.13) { double d = -rate * hz_of(code, fc) / C; if (std::fabs(d) > 32700) continue; one(make(sat, code, 21000000.0, fc, rate), fmt("rate %.3f", rate)); }
            for (double rate : {-0.5, -0.4999, 0.5, 0.4999, 0.0, 0.00004, -0.00006}) one(make(sat, code, 21000000.0, fc, rate), fmt("rate %.5f", rate)); break;
    case 5: for (fc = 0; fc < 14; fc++) for (int s = 0; s < (k == msmref::GLO ? 28 : 3); s++) one(make(FIRST[k] + s, code, 21000000.0 + 1000 * s, fc), fmt("satellite %d, channel %d", FIRST[k] + s, fc)); break;
  }
}
// ---- sets of observations
static void sets(Ctx &c) {
  uint32_t k = c.choose(6, "constellation"), mode = c.choose(3, "mode"), kind = c.choose(5, "kind"); auto &S = SIGNALS[k]; std::vector<int> codes; for (auto &s : S) if (std::find(codes.begin(), codes.end(), s.code) == codes.end()) codes.push_back(s.code);
  auto run = [&](std::vector<O> v, int per, const std::string &how) {
    Pair p((Mode)mode, true, 18); p.all_glo(); int n = std::max<int>(1, ((int)v.size() + per - 1) / per); if (n > 15) n = 15; int64_t start = 0;
    for (int i = 0; i < n; i++) { std::vector<O> part(v.begin() + std::min<long>((long)v.size(), start), v.begin() + std::min<long>((long)v.size(), start + per)); start += per; p.feed(c, 0x1042, T, W, n, i, part, fmt("%s, constellation %u, %s, part %d", MODES[mode], k, how.c_str(), i).c_str()); }
  };
  auto ob = [&](int s, int g) { return make(FIRST[k] + s, codes[(size_t)g], 21000000.0 + 54321.12 * s + 3.3 * g, ((FIRST[k] + s) * 5 + 3) % 14); };
  int ns = NUM[k], ng = (int)codes.size();
  switch (kind) {
    case 0: for (int a = 1; a <= ns; a++) for (int g = 1; g <= ng; g++) { if (a * g > 210) continue; std::vector<O> v; for (int s = 0; s < a; s++) for (int q = 0; q < g; q++) v.push_back(ob(s, q)); run(v, 14, fmt("%d satellites x %d signals", a, g)); std::vector<O> w; for (int q = 0; q < g; q++) for (int s = 0; s < a; s++) w.push_back(ob(s, q)); run(w, 13, fmt("%d signals x %d satellites", g, a)); } break;
    case 1: { // every subset of four satellites x three signals
      int g = std::min(3, ng), bits = 4 * g; for (int m = 1; m < 1 << bits; m++) { std::vector<O> v; for (int b = 0; b < bits; b++) if (m >> b & 1) v.push_back(ob((b / g) * (ns / 4), (b % g) * (ng / g))); if (m % 2) std::reverse(v.begin(), v.end()); run(v, 14, fmt("subset %x", m)); } break; }
    case 2: { // every order of four observations, one of them twice
      std::vector<int> ix = {0, 1, 2, 3, 0}; std::sort(ix.begin(), ix.end()); do { std::vector<O> v; for (size_t z = 0; z < 5; z++) { O o = ob(ix[z] / 2, std::min(ng - 1, ix[z] % 2)); if (z == 4) o.P += 50; v.push_back(o); } run(v, 2, fmt("order %d%d%d%d%d", ix[0], ix[1], ix[2], ix[3], ix[4])); } while (std::next_permutation(ix.begin(), ix.end())); break; }
    case 3: { // as many as a sequence can hold, and more than an epoch can
      for (int n : {195, 196, 197, 209, 210}) { std::vector<O> v; for (int i = 0; i < n; i++) v.push_back(ob(i % ns, (i / ns) % ng)); run(v, 14, fmt("%d observations", n)); }
      for (int extra : {0, 1, 13, 14}) { Pair p((Mode)mode, true, 18); p.all_glo(); for (int i = 0; i < 16; i++) { std::vector<O> v; for (int q = 0; q < (i == 15 ? extra : 14); q++) v.push_back(ob((i * 14 + q) % ns, ((i * 14 + q) / ns) % ng)); p.feed(c, 0x1042, T, W, 0, i, v, fmt("%s, constellation %u, unending sequence, part %d", MODES[mode], k, i).c_str()); } p.feed(c, 0x1042, T + 1000, W, 1, 0, {ob(0, 0)}, "next epoch"); }
      break; }
    case 4: for (int a = 0; a < ns; a++) for (int b = 0; b < ns; b++) for (int z = 0; z < (c.thorough ? ng : 1); z++) { std::vector<O> v = {ob(a, 0), ob(a, ng - 1), ob(b, z), ob(b, ng - 1)}; run(v, 14, fmt("satellites %d and %d", a, b)); } break;
  }
}
// ---- messages cut short
static void lengths(Ctx &c) {
  uint32_t mode = c.choose(3, "mode"), len = c.choose(256, "length"); std::vector<O> all; for (int i = 0; i < 15; i++) all.push_back(make(i + 1, CODE_GPS_L1CA, 21000000.0 + 1000 * i)); Bytes b = obs_msg(T, W, 1, 0, all); b.resize(len);
  for (int before = 0; before < 3; before++) {
    Pair p((Mode)mode, true, 18); std::string how = fmt("%s, message of %u bytes%s", MODES[mode], len, before ? " after another" : "");
    if (before) p.feed(c, 0x1042, T, W, before == 1 ? 1 : 2, 0, {make(20, CODE_GPS_L1CA, 22000000.0)}, "first");
    c.at("%s", how.c_str()); if (len >= 11) { b[10] = before == 2 ? 0x21 : 0x10; std::vector<O> v(all.begin(), all.begin() + (len - 11) / 17); p.m.feed(0x1042, T, W, b[10] >> 4, b[10] & 15, v); }
    p.r.feed(&sbp2rtcm_sbp_obs_cb, 0x1042, b); p.settle(c, how.c_str()); c.step();
    p.feed(c, 0x1042, T + 1000, W, 1, 0, {make(21, CODE_GPS_L1CA, 22000000.0)}, "next");
  }
}
int main(int argc, char **argv) {
  Spec s; s.property = "C20";
  s.rule = "every sequence of 3 (thorough 4) messages out of ~45: observation messages of two senders, times before, at and after the pending epoch, complete, partial, repeated, out-of-order and never-ending sequences, contents without usable observations, and station, bias and log messages of a third sender; the same with epochs a millisecond to a second apart and messages without observations; every hour and day boundary of a week at 1 s and 1 ms x leap seconds x mode; every satellite number x code number x neighbours; every flag, C/N0, lock, range grid over all milliseconds, phase and rate grids; every number of satellites x signals, subsets, orders and repetitions; every satellite and channel number given to the GLONASS channel table; every message length";
  s.assumptions = {"frames are taken apart by an independent reader of the messages' bit layout", "SBP header files are those of the shim (the submodules are not in the sandbox)"};
  s.scenarios = {{"sequences", sequences, 0, 0, false}, {"close", close_epochs, 0, 0, false}, {"times", times, 0, 0, false}, {"signals", signals, 0, 0, false}, {"values", values, 0, 0, false}, {"channels", channels, 0, 0, false}, {"sets", sets, 0, 0, false}, {"lengths", lengths, 0, 0, false}};
  return run(argc, argv, s);
}
