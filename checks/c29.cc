// C29: iXCOM inertial and wheel data keep their values and time in SBP
#include "ixpipe.hpp"
#include <cmath>
using namespace mc; using namespace ix;
// ------------------------------------------------------------------ reference: what a message means
static const double ACC = 4 * 9.80665 / 32768, GYR = 125.0 / 32768 * M_PI / 180;   // SBP units at +-4 g and +-125 deg/s
struct Ref { long imus = 0; };
static bool near16(int got, double want, std::string &why) {
  if (std::isnan(want)) return true; if (std::fabs(want) > 1e9) want = want > 0 ? 1e9 : -1e9;
  double lo = want - 0.51 - std::fabs(want) * 3e-7, hi = want + 0.51 + std::fabs(want) * 3e-7; if (lo > 32767) lo = 32767; if (hi < -32768) hi = -32768;
  if (got >= lo && got <= hi) return true; why = fmt("%d, expected %.3f", got, want); return false;
}
static void time_of_week(Ctx &c, uint32_t tow, int frac, const Head &h, const char *how) {
  // within one unit of 1/256 ms; a fraction of 1000 us never makes a whole millisecond
  double want = h.sec * 1000.0 + h.usec / 1000.0, got = tow + frac / 256.0;
  CHK(c, std::fabs(want - got) <= 1.01 / 256, "%s: time %u ms and %d/256 for %u s and %u us", how, tow, frac, h.sec, h.usec);
}
static void see_imu(Ctx &c, X &x, Ref &r, const uint32_t v[6], const Head &h, const char *how, unsigned sender = 4711, int pieces = 0) {
  Bytes b = imu(v, h); std::vector<size_t> sp; if (pieces) for (size_t i = 0; i < b.size(); i += (size_t)pieces) sp.push_back((size_t)pieces); x.stream(b, sp); auto o = x.take(); bool aux = r.imus++ % 100 == 0;
  CHK(c, o.size() == (aux ? 2u : 1u), "%s: %zu messages sent for inertial message %ld, expected %d", how, o.size(), r.imus, aux ? 2 : 1);
  CHK(c, o[0].type == SbpMsgImuRaw && o[0].sender == sender, "%s: %s", how, ix::show(o[0]).c_str()); auto &m = o[0].m.imu_raw; time_of_week(c, m.tow, m.tow_f, h, how);
  const int g[6] = {m.acc_x, m.acc_y, m.acc_z, m.gyr_x, m.gyr_y, m.gyr_z}; std::string why; static const char *N[] = {"acceleration x", "acceleration y", "acceleration z", "rate x", "rate y", "rate z"};
  for (int i = 0; i < 6; i++) CHK(c, near16(g[i], bitsf(v[i]) / (i < 3 ? ACC : GYR), why), "%s: %s %.9g becomes %s", how, N[i], bitsf(v[i]), why.c_str());
  if (aux) { auto &a = o[1].m.imu_aux; CHK(c, o[1].type == SbpMsgImuAux && o[1].sender == sender && a.imu_type == 255 && a.temp == 0 && a.imu_conf == 0x41, "%s: configuration is %s", how, ix::show(o[1]).c_str()); }
  c.traced(1);
}
static void see_wheel(Ctx &c, X &x, uint32_t speed, uint32_t ticks, const Head &h, const char *how, unsigned sender = 4711) {
  x.stream(wheel(speed, ticks, h)); auto o = x.take(); CHK(c, o.size() == 2 && o[0].type == SbpMsgOdometry && o[1].type == SbpMsgWheeltick && o[0].sender == sender && o[1].sender == sender, "%s: %zu messages for a wheel message", how, o.size());
  auto &m = o[0].m.odometry; auto &w = o[1].m.wheeltick; double v = bitsf(speed); if (std::fabs(v) > 1e9) v = v > 0 ? 1e9 : -1e9; CHK(c, m.tow == h.sec * 1000 + h.usec / 1000 || m.tow == h.sec * 1000 + (h.usec + 500) / 1000, "%s: odometry time %u for %u s and %u us", how, m.tow, h.sec, h.usec);
  if (!std::isnan(v)) { double lo = v * 1000 - 1.0 - std::fabs(v) * 2e-4, hi = v * 1000 + 1.0 + std::fabs(v) * 2e-4; if (lo > INT32_MAX) lo = INT32_MAX; if (hi < INT32_MIN) hi = INT32_MIN; CHK(c, m.velocity >= lo && m.velocity <= hi, "%s: %.9g m/s becomes %d mm/s", how, v, m.velocity); }
  CHK(c, m.flags == 1 && w.flags == 1 && w.source == 0, "%s: %s, %s", how, ix::show(o[0]).c_str(), ix::show(o[1]).c_str());
  CHK(c, w.time == h.sec * 1000000ull + h.usec && (uint32_t)w.ticks == ticks, "%s: %s for %u s, %u us, %d ticks", how, ix::show(o[1]).c_str(), h.sec, h.usec, (int)ticks); c.traced(1);
}
static std::vector<uint32_t> odd_floats(double unit) {
  std::vector<uint32_t> v; auto f = [&](double x) { for (int s : {1, -1}) { uint32_t u = fbits((float)(s * x)); v.push_back(u); v.push_back(u + 1); if (x > 0) v.push_back(u - 1); } };
  for (double x : {0.0, 0.25, 0.49, 0.5, 0.51, 1.0, 1.49, 1.51, 100.5, 32766.0, 32766.4, 32766.6, 32767.0, 32767.4, 32767.6, 32768.0, 32768.4, 32769.0, 40000.0, 65535.0, 65536.0, 65537.0, 98304.0, 1e6, 2147483647.0, 2147483648.0, 4294967296.0, 4294967297.0, 1e12, 9.3e18, 1e20}) f(x * unit);
  for (uint32_t u : {0x7F7FFFFFu, 0xFF7FFFFFu, 0x7F800000u, 0xFF800000u, 0x00000001u, 0x80000001u, 0x007FFFFFu}) v.push_back(u); return v;
}
// every value of every axis: all outputs, in fractions of a unit
static void axes(Ctx &c) {
  int axis = c.choose(6, "axis"), block = c.choose(260, "block"); c.leaf(); int sub = c.thorough ? 8 : 1; double unit = axis < 3 ? ACC : GYR; X x; Ref r;
  for (int i = 0; i < 256; i++) for (int s = 0; s < sub; s++) { double k = (block - 130) * 256 + i + (sub > 1 ? s / 8.0 : (i % 3) * 0.3); uint32_t v[6]; for (int a = 0; a < 6; a++) v[a] = fbits((float)((a - 2) * 100.2 * (a < 3 ? ACC : GYR))); v[axis] = fbits((float)(k * unit)); c.step(); see_imu(c, x, r, v, Head(), "axis values"); }
  c.state(mix((uint64_t)axis, (uint64_t)block));
}
static void values(Ctx &c) {                                // odd values on one axis, another on a second
  int axis = c.choose(6, "axis"); auto v1 = odd_floats(axis < 3 ? ACC : GYR); uint32_t a = v1[c.choose((uint32_t)v1.size(), "value")]; int second = c.choose(6, "second axis"); c.leaf(); auto v2 = odd_floats(second < 3 ? ACC : GYR);
  X x; Ref r; for (uint32_t b : v2) { uint32_t v[6] = {fbits(1.f), fbits(-2.f), fbits(9.8f), fbits(0.1f), fbits(-0.2f), fbits(0.3f)}; v[axis] = a; if (second != axis) v[second] = b; c.step(); see_imu(c, x, r, v, Head(), "odd values"); if (second == axis) break; }
  c.state(mix((uint64_t)axis, a));
}
static void exponents(Ctx &c) {                             // every exponent with all of the leading mantissa bits
  int what = c.choose(7, "what"), sign = c.choose(2, "sign"), e = c.choose(256, "exponent"); c.leaf(); X x; Ref r; int n = c.thorough ? 4096 : 128;
  for (int m = 0; m < n; m++) { uint32_t u = (uint32_t)sign << 31 | (uint32_t)e << 23 | (uint32_t)m * (uint32_t)(8388608 / n) | (m & 1 ? 0x7F : 0); if (e == 255 && (u & 0x7FFFFF)) continue; c.step();
    if (what < 6) { uint32_t v[6] = {0, 0, 0, 0, 0, 0}; v[what] = u; see_imu(c, x, r, v, Head(), "exponents"); } else see_wheel(c, x, u, (uint32_t)m * 77777u, Head(), "exponents"); }
  c.state(mix((uint64_t)what, (uint64_t)(e * 2 + sign)));
}
static void speeds(Ctx &c) {
  auto v = odd_floats(1); static const double edges[] = {2147483.5, 2147483.6, 2147483.648, 2147483.75, 2147484, 4294967.25, 4294967.5, 4294968, 1e7, 0.0004, 0.0005, 0.0006, 0.001, 0.0014, 0.0016, 27.7777, 120.0}; for (double d : edges) for (int s : {1, -1}) { v.push_back(fbits((float)(s * d))); v.push_back(fbits((float)(s * d)) + 1); v.push_back(fbits((float)(s * d)) - 1); }
  uint32_t s = v[c.choose((uint32_t)v.size(), "speed")]; static const uint32_t t[] = {0, 1, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 255, 256, 65535, 65536, 0xFFFF0000, 1000000}; uint32_t k = t[c.choose(11, "ticks")]; X x; see_wheel(c, x, s, k, Head(), "speeds"); c.state(mix(s, k));
  // every millimetre per second around the speed
  if (k) return; for (int i = -200; i <= 200; i++) { c.step(); see_wheel(c, x, fbits((float)(bitsf(s) + i * 0.0007)), (uint32_t)i, Head(), "speeds"); }
}
static void ticks(Ctx &c) { int hi = c.choose(256, "high"); c.leaf(); X x; for (uint32_t i = 0; i < 256; i++) for (uint32_t k : {(uint32_t)hi << 24 | i << 16 | (i * 37 & 255) << 8 | ((uint32_t)hi ^ i), (uint32_t)hi << 8 | i, (uint32_t)hi << 16 | i << 8 | 255}) { c.step(); see_wheel(c, x, fbits(1.5f), k, Head(), "ticks"); } c.state((uint64_t)hi); }
// times
static void seconds(Ctx &c) {                               // every second of the week
  int block = c.choose(c.thorough ? 605 : 101, "block"); c.leaf(); X x; Ref r; uint32_t v[6] = {0, 0, 0, 0, 0, 0}; static const uint32_t us[] = {0, 1, 499, 500, 999, 1000, 1999, 499999, 999000, 999499, 999500, 999999};
  for (int i = 0; i < 1000; i++) { Head h; h.sec = c.thorough ? (uint32_t)(block * 1000 + i) : (uint32_t)(block * 6000 + i * 6 + (i + block) % 6); if (h.sec > 604799) break; h.usec = us[(size_t)(i * 7 + block) % 12]; c.step(); see_imu(c, x, r, v, h, "seconds"); see_wheel(c, x, fbits(1.f), 1, h, "seconds"); }
  c.state((uint64_t)block);
}
static void fractions(Ctx &c) {                             // every microsecond of a second
  int ms = c.choose(1000, "millisecond"); static const uint32_t secs[] = {0, 1, 4294, 4295, 345600, 604799}; uint32_t s = secs[c.choose(6, "second")]; c.leaf(); X x; Ref r; uint32_t v[6] = {0, 0, 0, 0, 0, 0};
  for (uint32_t u = (uint32_t)ms % (c.thorough ? 1 : 5); u < 1000; u += c.thorough ? 1 : 5) { Head h; h.sec = s; h.usec = (uint32_t)ms * 1000 + u; c.step(); see_imu(c, x, r, v, h, "fractions"); if (u % 4 == 0) see_wheel(c, x, fbits(1.f), 1, h, "fractions"); }
  c.state(mix((uint64_t)ms, s));
}
static void header(Ctx &c) {                                // counter, trigger, week and status change nothing
  Head h; int f = c.choose(4, "field"), v = c.choose(256, "value"); int status = 0x8001; if (f == 0) h.counter = v; else if (f == 1) h.trigger = v; else if (f == 2) h.week = v * 257; else status = v * 257;
  X x; Ref r; uint32_t w[6]; for (int i = 0; i < 6; i++) w[i] = fbits((float)i); Bytes p; for (int i = 0; i < 6; i++) le(p, w[i], 4); see_imu(c, x, r, w, h, "header"); see_wheel(c, x, fbits(2.f), 9, h, "header");
  if (f == 3) { x.stream(message(0, p, h, status)); CHK(c, x.take().size() == 1, "status %04x", status); }
}
// ------------------------------------------------------------------ histories
static void history(Ctx &c) {                               // inertial messages up to a count, then a mixture: the configuration message appears once in a hundred
  int before = c.choose(c.thorough ? 700 : 310, "inertial messages before"), len = c.thorough ? 5 : 4; X x; Ref r; uint32_t v[6]; auto one = [&](int i) { for (int k = 0; k < 6; k++) v[k] = fbits((float)(i % 50 * 0.01 + k)); Head h; h.sec = (uint32_t)(1000 + i); h.usec = (uint32_t)(i * 997 % 1000000); see_imu(c, x, r, v, h, "history", 4711, i % 5); };
  int ops[5], w[5] = {0, 0, 0, 0, 0}; for (int i = 0; i < len; i++) { ops[i] = c.choose(4, "next"); w[i] = ops[i]; } (void)w; c.leaf();
  for (int i = 0; i < before; i++) one(i);
  for (int i = 0; i < len; i++) switch (ops[i]) { case 0: one(1000 + i); break; case 1: see_wheel(c, x, fbits((float)i), (uint32_t)i, Head(), "history"); break; case 2: x.stream(message(0x03, Bytes(12, 1))); CHK(c, x.take().empty(), "an unknown message is converted"); break;
      default: { Bytes b = imu(v); b.back() ^= 1; b.insert(b.end(), 64, 0); x.stream(b); CHK(c, x.take().empty(), "a damaged message is converted"); } }
  for (int i = 0; i < 3; i++) one(2000 + i); c.state((uint64_t)(before * 1024 + ops[0] * 64 + ops[1] * 16 + ops[2] * 4 + ops[3]));
}
static void together(Ctx &c) {                              // all mixtures in one stream, any reads, against one message at a time
  int len = c.thorough ? 7 : 5; size_t ch = (size_t)c.choose(5, "reads") * 11; Bytes b; std::vector<Bytes> each; for (int i = 0; i < len; i++) { int k = c.choose(5, "message"); Head h; h.sec = (uint32_t)(i * 3); h.usec = (uint32_t)i; uint32_t v[6]; for (int a = 0; a < 6; a++) v[a] = fbits((float)(a * i)); Bytes m = k == 0 ? imu(v, h) : k == 1 ? wheel(fbits((float)i), (uint32_t)i, h) : k == 2 ? message(0x03, Bytes((size_t)i * 9, 7)) : k == 3 ? message(0x00, Bytes(8, 1)) : message(0x16, Bytes(24, 1)); each.push_back(m); append(b, m); }
  X one, all; size_t n = 0; for (auto &m : each) { one.stream(m); size_t k = one.out.size() - n; n = one.out.size(); if (m.size() == 28 && m[1] == 0) CHK(c, k == 0, "a short inertial message is converted"); if (m.size() == 44 && m[1] == 0x16) CHK(c, k == 0, "a long wheel message is converted"); }
  std::vector<size_t> sp; if (ch) for (size_t i = 0; i < b.size(); i += ch) sp.push_back(ch); b.insert(b.end(), 64, 0); all.stream(b, sp); CHK(c, one.shown() == all.shown(), "a stream of %d messages sends %zu messages, one by one %zu", len, all.out.size(), n); c.state(hash_bytes(b.data(), b.size()));
}
static void senders(Ctx &c) { unsigned s = (unsigned)c.choose(256, "sender, high byte") << 8; c.leaf(); for (unsigned lo = 0; lo < 256; lo += c.thorough ? 1 : 17) { X x; Ref r; ixcom_set_sender_id(x.st(), (uint16_t)(s | lo)); uint32_t v[6] = {0, 0, 0, 0, 0, 0}; c.step(); see_imu(c, x, r, v, Head(), "sender", s | lo); see_wheel(c, x, 0, 0, Head(), "sender", s | lo); see_imu(c, x, r, v, Head(), "sender", s | lo); } }
int main(int argc, char **argv) {
  Spec s; s.property = "C29";
  s.rule = "every output value of each axis (in eighths of a unit in thorough), odd values (beyond range, infinite, smallest) on each axis pair, every float exponent with leading mantissa bits on each axis and the speed, tick counts, times over the whole week and every microsecond, header and status bytes, histories of up to 310 (700) inertial messages followed by all mixtures, all streams of 5 (7) messages, senders: SBP values within a unit of the physical ones, saturated, times and the configuration message after the 1st, 101st, ...";
  s.assumptions = {"values that are no numbers are not judged", "times of week within the week, fractions below a second", "velocity within 1 mm/s, inertial values within half a unit (both roundings at ties)"};
  s.scenarios = {{"axes", axes}, {"values", values}, {"exponents", exponents}, {"speeds", speeds}, {"ticks", ticks}, {"seconds", seconds}, {"fractions", fractions}, {"header", header}, {"history", history}, {"together", together}, {"senders", senders}};
  return run(argc, argv, s);
}
