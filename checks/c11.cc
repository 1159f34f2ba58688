// C11: lock-time indicators, through every message that carries them
#include "rtcmref.hpp"
using namespace mc; using namespace rtcmref;
static const int NUM[] = {1001, 1002, 1003, 1004, 1010, 1012};
// the 7-bit indicator: every value in every message and both frequencies
static double decoded7(Ctx &c, int num, int f, uint32_t ind) {
  Shape s = legacy(num, 1); Raw r = s.defaults(); for (size_t i = 0; i < s.f.size(); i++) if (s.f[i].name == (f ? "lock2[0]" : "lock1[0]")) r[i] = ind;
  rtcm_obs_message m; memset(&m, 0x77, sizeof m); rtcm3_rc rc = decode(s, s.bytes(r), &m); CHK(c, rc == RC_OK, "%d is refused", num); return m.sats[0].obs[f].lock;
}
static void legacy_decode(Ctx &c) {
  int num = NUM[c.choose(6, "number")], f = (int)c.choose(2, "frequency"); if (f && num != 1003 && num != 1004 && num != 1012) return; double last = -1;
  for (uint32_t i = 0; i < 128; i++) {
    c.step(); c.traced(); double v = decoded7(c, num, f, i); CHK(c, v == msmref::lock7(i), "%d L%d: indicator %u decodes to %.3f s, the standard says %.3f", num, f + 1, i, v, msmref::lock7(i)); CHK(c, v > last, "%d L%d: indicator %u is not above the one before", num, f + 1, i); last = v; c.state(mix(i, (uint64_t)v));
  }
}
static void legacy_encode(Ctx &c) {
  int num = NUM[c.choose(6, "number")], f = (int)c.choose(2, "frequency"); if (f && num != 1003 && num != 1004 && num != 1012) return; uint32_t blk = c.choose(26, "block of 40 s");
  Shape s = legacy(num, 1); Raw r = s.defaults(); rtcm_obs_message m, d; memset(&m, 0, sizeof m); if (decode(s, s.bytes(r), &m) != RC_OK) return; uint32_t prev = 0;
  size_t at = 0; { size_t bit = 0; for (auto &x : s.f) { if (x.name == (f ? "lock2[0]" : "lock1[0]")) at = bit; bit += (size_t)x.w; } }
  for (uint32_t k = 0; k < 40; k++) for (double e : {0.0, 0.001, 0.25, 0.499, 0.5, 0.501, 0.75, 0.999, 0.999999}) {
    double t = blk == 25 ? std::ldexp(1, (int)k / 2) * 1000 + e : blk * 40 + k + e; uint8_t buf[200]; memset(buf, 0, sizeof buf); m.sats[0].obs[f].lock = t; c.step(); c.traced(); uint16_t n = s.enc(&m, buf); if (!n) { c.check(false, "%d is not encoded", num); return; }
    uint32_t ind = 0; for (size_t b = at; b < at + 7; b++) ind = ind << 1 | (buf[b / 8] >> (7 - b % 8) & 1);
    uint32_t want = 0; for (uint32_t i = 0; i < 128; i++) if (msmref::lock7(i) <= t) want = i;
    CHK(c, ind == want, "%d L%d: a lock time of %.6f s is sent as indicator %u (at least %.0f s) instead of %u", num, f + 1, t, ind, msmref::lock7(ind), want); CHK(c, ind >= prev, "%d: encoding is not monotone at %.3f", num, t); prev = ind; c.state(mix(ind, n));
    memset(&d, 0, sizeof d); if (decode(s, Bytes(buf, buf + n), &d) == RC_OK) CHK(c, d.sats[0].obs[f].lock <= t, "%d: lock time %.6f comes back longer: %.3f", num, t, d.sats[0].obs[f].lock);
  }
}
static void legacy_again(Ctx &c) {   // re-encoding a decoded indicator returns it
  int num = NUM[c.choose(6, "number")]; uint32_t i = c.choose(128, "indicator"); Shape s = legacy(num, 1); Raw r = s.defaults(); std::vector<size_t> ix; for (size_t k = 0; k < s.f.size(); k++) if (!s.f[k].name.compare(0, 4, "lock")) { r[k] = k % 2 ? i : 127 - i; ix.push_back(k); }
  rtcm_obs_message m; memset(&m, 0, sizeof m); c.step(); c.traced(); if (decode(s, s.bytes(r), &m) != RC_OK) { c.check(false, "%d is refused", num); return; } uint8_t buf[200]; memset(buf, 0, sizeof buf); uint16_t n = s.enc(&m, buf);
  CHK(c, Bytes(buf, buf + n) == s.bytes(r), "%d: indicators %u and %u are not re-encoded as they were", num, i, 127 - i); c.state(hash_bytes(buf, n));
}
static void four_bit(Ctx &c) {
  uint32_t i = c.choose(256, "indicator byte"); double v = rtcm3_decode_lock_time((uint8_t)i), want = msmref::lock4(i & 15); c.step(); c.traced(); CHK(c, v == want, "DF402 %u decodes to %.6f s instead of %.6f", i, v, want); c.state(i);
  if (i < 16) { CHK(c, rtcm3_encode_lock_time(v) == i, "DF402 %u is re-encoded as %u", i, rtcm3_encode_lock_time(v)); if (i) CHK(c, v > rtcm3_decode_lock_time((uint8_t)(i - 1)), "DF402 %u is not above the one before", i); }
}
static void four_bit_encode(Ctx &c) {   // every millisecond to 1100 s, half milliseconds and neighbours of each limit
  uint32_t blk = c.choose(c.thorough ? 1100 : 550, "second"); uint8_t last = 0;
  for (uint32_t k = 0; k < (c.thorough ? 2000u : 2000u); k++) {
    double t = c.thorough ? blk + k / 2000.0 : (blk * 2000 + k) / 1000.0; uint32_t want = 0; for (uint32_t i = 0; i < 16; i++) if (msmref::lock4(i) <= t) want = i; c.step();
    uint8_t g = rtcm3_encode_lock_time(t); CHK(c, g == want, "%.4f s is sent as DF402 %u instead of %u", t, g, want); CHK(c, g >= last, "not monotone at %.4f", t); last = g; c.state(g);
  }
  c.traced();
  if (blk < 16) for (double f : {std::nextafter(1.0, 0.0), 1.0, std::nextafter(1.0, 2.0)}) { double t = msmref::lock4(blk) * f; uint32_t want = 0; for (uint32_t i = 0; i < 16; i++) if (msmref::lock4(i) <= t) want = i; CHK(c, rtcm3_encode_lock_time(t) == want, "%.17g s is sent as DF402 %u instead of %u", t, rtcm3_encode_lock_time(t), want); }
  if (blk == 0) for (double t : {1e4, 1e6, 4294967.0, 4294968.0, 1e9}) CHK(c, rtcm3_encode_lock_time(t) == 15, "%.1f s is sent as DF402 %u", t, rtcm3_encode_lock_time(t));
}
// indicators carried by MSM4..7
static void msm_decode(Ctx &c) {
  using namespace msmref; int cons = (int)c.choose(6, "constellation"), kind = 4 + (int)c.choose(4, "kind"); Msg q = msm_msg(cons, kind, 0x5ull << 40, 0x60000000u, 0); if (cons == GLO) q.epoch &= 0x7FFFFFF; Shape s = rtcmref::msm(q, "msm"); bool e = kind >= 6; std::unique_ptr<rtcm_msm_message> m(new rtcm_msm_message); double last = -1; std::vector<size_t> ix; for (size_t k = 0; k < s.f.size(); k++) if (!s.f[k].name.compare(0, 5, "lock[")) ix.push_back(k);
  for (uint32_t i = 0; i < (e ? 1024u : 16u); i++) {
    Raw r = s.defaults(); for (size_t k = 0; k < ix.size(); k++) r[ix[k]] = (i + (uint32_t)k * 5) % (e ? 1024 : 16); c.step(); c.traced(); if (decode(s, s.bytes(r), m.get()) != RC_OK) { c.check(false, "refused"); return; }
    for (size_t k = 0; k < ix.size(); k++) { double w = e ? lock10((uint32_t)r[ix[k]]) : lock4((uint32_t)r[ix[k]]); CHK(c, std::fabs(m->signals[k].lock_time_s - w) < 1e-9, "MSM%d: indicator %lld decodes to %.6f s instead of %.6f", kind, (long long)r[ix[k]], m->signals[k].lock_time_s, w); }
    CHK(c, m->signals[0].lock_time_s >= last, "MSM%d: indicator %u decodes below the one before", kind, i); last = m->signals[0].lock_time_s; c.state(mix(i, (uint64_t)(last * 1000)));
    if (e) continue;
    uint8_t buf[800]; memset(buf, 0, sizeof buf); uint16_t n = s.enc(m.get(), buf); CHK(c, Bytes(buf, buf + n) == s.bytes(r), "MSM%d: indicator %u is not re-encoded as it was: %s to %s", kind, i, hex(s.bytes(r)).c_str(), hex(buf, n).c_str());
  }
}
int main(int argc, char **argv) {
  Spec s; s.property = "C11";
  s.rule = "every 4, 7 and 10 bit lock-time indicator in every message and frequency that carries it, decoded and (4 and 7 bit) re-encoded; every lock time on a fine grid and next to every limit encoded";
  s.assumptions = {"lock times are not negative", "the library has no encoder for the 10-bit indicator"};
  s.scenarios = {{"legacy_decode", legacy_decode}, {"legacy_encode", legacy_encode}, {"legacy_again", legacy_again}, {"four_bit", four_bit}, {"four_bit_encode", four_bit_encode}, {"msm_decode", msm_decode}};
  return run(argc, argv, s);
}
