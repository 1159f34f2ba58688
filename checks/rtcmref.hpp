// RTCM messages described field by field from the standard: each Shape is one message with fixed counts,
// its fields in order, the quantities a decoder must report, and the decoder (and encoder) of the library.
#pragma once
#include "mc.hpp"
#include "msmref.hpp"
#include <cmath>
#include <functional>
#include <memory>
extern "C" {
#include <rtcm3/decode.h>
#include <rtcm3/encode.h>
#include <rtcm3/eph_decode.h>
#include <rtcm3/eph_encode.h>
#include <rtcm3/ssr_decode.h>
}
namespace rtcmref {
using mc::Bytes; using mc::BitW;
typedef std::vector<int64_t> Raw;
struct Field { std::string name; int w; char t; bool fixed; int64_t def; };
struct Out { std::string name; std::function<double(const void *)> get; std::function<double(const Raw &)> want; double tol; std::function<bool(const Raw &)> when; };
struct Shape {
  std::string name; int num = 0; size_t size = 0;
  std::function<rtcm3_rc(swiftnav_bitstream_t *, void *)> dec;
  std::function<uint16_t(const void *, uint8_t *)> enc;
  std::vector<Field> f; std::vector<Out> o;
  std::function<bool(const Raw &)> ok;      // false: the standard forbids these values and the decoder must refuse
  std::function<bool(const Raw &)> encodable;  // values the encoder can reproduce bit by bit
  int add(const std::string &n, int w, char t, int64_t def = 0, bool fixed = false) { f.push_back({n, w, t, fixed, def}); return (int)f.size() - 1; }
  void out(const std::string &n, std::function<double(const void *)> g, std::function<double(const Raw &)> w, double tol = 0, std::function<bool(const Raw &)> when = nullptr) { o.push_back({n, g, w, tol, when}); }
  // a field reported as it is, times a scale
  int val(const std::string &n, int w, char t, std::function<double(const void *)> g, double scale = 1, int64_t def = 0, bool fixed = false) {
    int i = add(n, w, t, def, fixed);
    out(n, g, [i, scale](const Raw &r) { return (double)r[(size_t)i] * scale; }, scale == 1 ? 0 : std::fabs(scale) * 1e-6);
    return i;
  }
  Raw defaults() const { Raw r; for (auto &x : f) r.push_back(x.t == 'm' ? x.def : trim(x, (uint64_t)x.def)); return r; }
  size_t bits() const { size_t n = 0; for (auto &x : f) n += (size_t)x.w; return n; }
  Bytes bytes(const Raw &r) const {
    BitW b; for (size_t i = 0; i < f.size(); i++) { if (f[i].t == 'm') b.sm(f[i].w, r[i]); else b.u(f[i].w, (uint64_t)r[i]); } return b.b;
  }
  static int64_t trim(const Field &x, uint64_t v) {     // bit pattern to value
    if (x.w < 64) v &= (1ull << x.w) - 1;
    if (x.t == 'u') return (int64_t)v;
    if (x.t == 's') return v >> (x.w - 1) & 1 ? (int64_t)(v | ~0ull << x.w) : (int64_t)v;
    int64_t m = (int64_t)(v & ((1ull << (x.w - 1)) - 1)); return v >> (x.w - 1) & 1 ? -m : m;
  }
};
#define GET(T, expr) [=](const void *p_) -> double { const T *m = (const T *)p_; (void)m; return (double)(expr); }
// decode from an allocation holding exactly the payload
template <class F> inline rtcm3_rc with_exact(const uint8_t *p, size_t n, size_t nbits, F f) {
  std::unique_ptr<uint8_t[]> q(new uint8_t[n ? n : 1]); if (n) memcpy(q.get(), p, n);
  swiftnav_bitstream_t bs; swiftnav_bitstream_init(&bs, q.get(), (uint32_t)nbits); return f(&bs);
}
inline rtcm3_rc decode(const Shape &s, const Bytes &b, void *out) { return with_exact(b.data(), b.size(), b.size() * 8, [&](swiftnav_bitstream_t *bs) { return s.dec(bs, out); }); }
// ---------------------------------------------------------------- legacy observations
static const double C = 299792458.0;
inline Shape legacy(int num, int nsat) {
  bool glo = num > 1004, l2 = num == 1003 || num == 1004 || num == 1012, ext = num == 1002 || num == 1004 || num >= 1010;
  Shape s; s.name = mc::fmt("%d/%d", num, nsat); s.num = num; s.size = sizeof(rtcm_obs_message); typedef rtcm_obs_message M;
  switch (num) {
#define L(n) case n: s.dec = [](swiftnav_bitstream_t *b, void *p) { return rtcm3_decode_##n##_bitstream(b, (M *)p); }; s.enc = [](const void *p, uint8_t *b) { return rtcm3_encode_##n((const M *)p, b); }; break;
    L(1001) L(1002) L(1003) L(1004) L(1010) L(1012)
#undef L
  }
  s.val("number", 12, 'u', GET(M, m->header.msg_num), 1, num, true);
  s.val("station", 12, 'u', GET(M, m->header.stn_id), 1, 0xABC);
  int tow = s.val("time", glo ? 27 : 30, 'u', GET(M, m->header.tow_ms), 1, glo ? 43200123 : 345600123);
  s.val("sync", 1, 'u', GET(M, m->header.sync), 1, 1);
  s.val("count", 5, 'u', GET(M, m->header.n_sat), 1, nsat, true);
  s.val("divergence free", 1, 'u', GET(M, m->header.div_free), 1, 0);
  s.val("smoothing", 3, 'u', GET(M, m->header.smooth), 1, 5);
  double unit = glo ? 599584.916 : 299792.458;
  for (int k = 0; k < nsat; k++) {
    auto nm = [&](const char *x) { return mc::fmt("%s[%d]", x, k); };
    s.val(nm("sat"), 6, 'u', GET(M, m->sats[k].svId), 1, k + 1);
    s.val(nm("code1"), 1, 'u', GET(M, m->sats[k].obs[0].code), 1, 0);
    int fcn = -1; if (glo) fcn = s.val(nm("fcn"), 5, 'u', GET(M, m->sats[k].fcn), 1, (k * 5 + 3) % 14);
    int pr = s.add(nm("pr1"), glo ? 25 : 24, 'u', 1000000 + 7777 * k), ph = s.add(nm("ph1"), 20, 's', 12345 - 999 * k), lk = s.add(nm("lock1"), 7, 'u', 50 + k), amb = -1, cn = -1;
    if (ext) { amb = s.add(nm("amb"), glo ? 7 : 8, 'u', (glo ? 35 : 70) + k); cn = s.add(nm("cnr1"), 8, 'u', 160 + k); }
    auto L1 = [=](const Raw &r) { return 0.02 * (double)r[pr] + (amb >= 0 ? unit * (double)r[amb] : 0); };
    auto vpr = [=](const Raw &r) { return r[pr] != 0x80000; };
    auto f1 = [=](const Raw &r) { return glo ? 1602.0e6 + (double)(r[fcn] - 7) * 562500 : 1575.42e6; };
    auto f2 = [=](const Raw &r) { return glo ? 1246.0e6 + (double)(r[fcn] - 7) * 437500 : 1227.60e6; };
    auto vcp = [=](const Raw &r) { return r[ph] != -524288 && (!glo || r[fcn] <= 20); };
    s.out(nm("pr1 valid"), GET(M, m->sats[k].obs[0].flags.fields.valid_pr), [=](const Raw &r) { return vpr(r); });
    s.out(nm("pr1"), GET(M, m->sats[k].obs[0].pseudorange), L1, 1e-5, vpr);
    s.out(nm("ph1 valid"), GET(M, m->sats[k].obs[0].flags.fields.valid_cp), [=](const Raw &r) { return vcp(r); }, 0, vpr);
    s.out(nm("ph1"), GET(M, m->sats[k].obs[0].carrier_phase), [=](const Raw &r) { return (L1(r) + 0.0005 * (double)r[ph]) / (C / f1(r)); }, 1e-5, [=](const Raw &r) { return vpr(r) && vcp(r); });
    s.out(nm("lock1"), GET(M, m->sats[k].obs[0].lock), [=](const Raw &r) { return msmref::lock7((uint32_t)r[lk]); }, 1e-9);
    s.out(nm("lock1 valid"), GET(M, m->sats[k].obs[0].flags.fields.valid_lock), [=](const Raw &r) { return vcp(r); }, 0, vpr);
    if (ext) {
      s.out(nm("cnr1 valid"), GET(M, m->sats[k].obs[0].flags.fields.valid_cnr), [=](const Raw &r) { return r[cn] != 0; });
      s.out(nm("cnr1"), GET(M, m->sats[k].obs[0].cnr), [=](const Raw &r) { return 0.25 * (double)r[cn]; }, 1e-9, [=](const Raw &r) { return r[cn] != 0; });
    } else s.out(nm("cnr1 valid"), GET(M, m->sats[k].obs[0].flags.fields.valid_cnr), [=](const Raw &) { return 0; });
    if (!l2) { s.out(nm("no second frequency"), GET(M, m->sats[k].obs[1].flags.data), [](const Raw &) { return 0; }); continue; }
    s.val(nm("code2"), 2, 'u', GET(M, m->sats[k].obs[1].code), 1, 0);
    int pr2 = s.add(nm("pr2"), 14, 's', -300 + 11 * k), ph2 = s.add(nm("ph2"), 20, 's', -54321 + 77 * k), lk2 = s.add(nm("lock2"), 7, 'u', 99 + k % 20), cn2 = -1;
    if (ext) cn2 = s.add(nm("cnr2"), 8, 'u', 120 + k);
    auto vpr2 = [=](const Raw &r) { return r[pr2] != -8192; }; auto vcp2 = [=](const Raw &r) { return r[ph2] != -524288; };
    s.out(nm("pr2 valid"), GET(M, m->sats[k].obs[1].flags.fields.valid_pr), [=](const Raw &r) { return vpr2(r); }, 0, vpr);
    s.out(nm("pr2"), GET(M, m->sats[k].obs[1].pseudorange), [=](const Raw &r) { return L1(r) + 0.02 * (double)r[pr2]; }, 1e-5, [=](const Raw &r) { return vpr(r) && vpr2(r); });
    s.out(nm("ph2 valid"), GET(M, m->sats[k].obs[1].flags.fields.valid_cp), [=](const Raw &r) { return vcp2(r) && (!glo || r[fcn] <= 20); }, 0, vpr);
    s.out(nm("ph2"), GET(M, m->sats[k].obs[1].carrier_phase), [=](const Raw &r) { return (L1(r) + 0.0005 * (double)r[ph2]) / (C / f2(r)); }, 1e-5, [=](const Raw &r) { return vpr(r) && vcp2(r) && (!glo || r[fcn] <= 20); });
    s.out(nm("lock2"), GET(M, m->sats[k].obs[1].lock), [=](const Raw &r) { return msmref::lock7((uint32_t)r[lk2]); }, 1e-9);
    s.out(nm("lock2 valid"), GET(M, m->sats[k].obs[1].flags.fields.valid_lock), [=](const Raw &r) { return vcp2(r) && (!glo || r[fcn] <= 20); }, 0, vpr);
    if (ext) {
      s.out(nm("cnr2 valid"), GET(M, m->sats[k].obs[1].flags.fields.valid_cnr), [=](const Raw &r) { return r[cn2] != 0; });
      s.out(nm("cnr2"), GET(M, m->sats[k].obs[1].cnr), [=](const Raw &r) { return 0.25 * (double)r[cn2]; }, 1e-9, [=](const Raw &r) { return r[cn2] != 0; });
    } else s.out(nm("cnr2 valid"), GET(M, m->sats[k].obs[1].flags.fields.valid_cnr), [=](const Raw &) { return 0; });
  }
  s.ok = [=](const Raw &r) { return r[tow] <= (glo ? 86399999 : 604799999); };
  return s;
}
// ---------------------------------------------------------------- station, text, bias
template <class M> inline void add1005(Shape &s, std::function<const rtcm_msg_1005 *(const void *)> at, int num) {
#define G5(e) [at](const void *p_) -> double { const rtcm_msg_1005 *m = at(p_); return (double)(e); }
  s.add("number", 12, 'u', num, true);
  s.val("station", 12, 'u', G5(m->stn_id), 1, 0x123);
  s.val("ITRF", 6, 'u', G5(m->ITRF), 1, 0x2A);
  s.val("GPS", 1, 'u', G5(m->GPS_ind), 1, 1);
  s.val("GLO", 1, 'u', G5(m->GLO_ind), 1, 0);
  s.val("GAL", 1, 'u', G5(m->GAL_ind), 1, 1);
  s.val("reference", 1, 'u', G5(m->ref_stn_ind), 1, 0);
  s.val("x", 38, 's', G5(m->arp_x), 0.0001, 37000001234ll);
  s.val("oscillator", 1, 'u', G5(m->osc_ind), 1, 1);
  int res = s.add("reserved", 1, 'u', 0); s.encodable = [res](const Raw &r) { return r[res] == 0; };
  s.val("y", 38, 's', G5(m->arp_y), 0.0001, -21000004321ll);
  s.val("quarter cycle", 2, 'u', G5(m->quart_cycle_ind), 1, 2);
  s.val("z", 38, 's', G5(m->arp_z), 0.0001, 45000007777ll);
#undef G5
}
inline Shape m1005() {
  Shape s; s.name = "1005"; s.num = 1005; s.size = sizeof(rtcm_msg_1005);
  s.dec = [](swiftnav_bitstream_t *b, void *p) { return rtcm3_decode_1005_bitstream(b, (rtcm_msg_1005 *)p); };
  s.enc = [](const void *p, uint8_t *b) { return rtcm3_encode_1005((const rtcm_msg_1005 *)p, b); };
  add1005<rtcm_msg_1005>(s, [](const void *p) { return (const rtcm_msg_1005 *)p; }, 1005); return s;
}
inline Shape m1006() {
  Shape s; s.name = "1006"; s.num = 1006; s.size = sizeof(rtcm_msg_1006);
  s.dec = [](swiftnav_bitstream_t *b, void *p) { return rtcm3_decode_1006_bitstream(b, (rtcm_msg_1006 *)p); };
  s.enc = [](const void *p, uint8_t *b) { return rtcm3_encode_1006((const rtcm_msg_1006 *)p, b); };
  add1005<rtcm_msg_1006>(s, [](const void *p) { return &((const rtcm_msg_1006 *)p)->msg_1005; }, 1006);
  s.val("height", 16, 'u', GET(rtcm_msg_1006, m->ant_height), 0.0001, 15432); return s;
}
inline void text(Shape &s, const char *n, int len, std::function<const char *(const void *)> str, std::function<double(const void *)> cnt, bool ends = false) {
  s.val(mc::fmt("%s length", n), 8, 'u', cnt, 1, len, true);
  for (int i = 0; i < len; i++) s.val(mc::fmt("%s[%d]", n, i), 8, 'u', [=](const void *p) { return (double)(uint8_t)str(p)[i]; }, 1, 'A' + i);
  if (ends) s.out(mc::fmt("%s end", n), [=](const void *p) { return (double)(uint8_t)str(p)[len]; }, [](const Raw &) { return 0; });
}
inline Shape m1007(int len) {
  typedef rtcm_msg_1007 M; Shape s; s.name = mc::fmt("1007/%d", len); s.num = 1007; s.size = sizeof(M);
  s.dec = [](swiftnav_bitstream_t *b, void *p) { return rtcm3_decode_1007_bitstream(b, (M *)p); }; s.enc = [](const void *p, uint8_t *b) { return rtcm3_encode_1007((const M *)p, b); };
  s.add("number", 12, 'u', 1007, true); s.val("station", 12, 'u', GET(M, m->stn_id), 1, 77);
  text(s, "descriptor", len, [](const void *p) { return ((const M *)p)->ant_descriptor; }, GET(M, m->ant_descriptor_counter));
  s.val("setup", 8, 'u', GET(M, m->ant_setup_id), 1, 3); return s;
}
inline Shape m1008(int l1, int l2) {
  typedef rtcm_msg_1008 M; Shape s; s.name = mc::fmt("1008/%d/%d", l1, l2); s.num = 1008; s.size = sizeof(M);
  s.dec = [](swiftnav_bitstream_t *b, void *p) { return rtcm3_decode_1008_bitstream(b, (M *)p); }; s.enc = [](const void *p, uint8_t *b) { return rtcm3_encode_1008((const M *)p, b); };
  s.add("number", 12, 'u', 1008, true); s.val("station", 12, 'u', GET(M, m->msg_1007.stn_id), 1, 77);
  text(s, "descriptor", l1, [](const void *p) { return ((const M *)p)->msg_1007.ant_descriptor; }, GET(M, m->msg_1007.ant_descriptor_counter));
  s.val("setup", 8, 'u', GET(M, m->msg_1007.ant_setup_id), 1, 3);
  text(s, "serial", l2, [](const void *p) { return ((const M *)p)->ant_serial_num; }, GET(M, m->ant_serial_num_counter)); return s;
}
inline Shape m1029(int n, int chars) {
  typedef rtcm_msg_1029 M; Shape s; s.name = mc::fmt("1029/%d", n); s.num = 1029; s.size = sizeof(M);
  s.dec = [](swiftnav_bitstream_t *b, void *p) { return rtcm3_decode_1029_bitstream(b, (M *)p); }; s.enc = [](const void *p, uint8_t *b) { return rtcm3_encode_1029((const M *)p, b); };
  s.add("number", 12, 'u', 1029, true); s.val("station", 12, 'u', GET(M, m->stn_id), 1, 23); s.val("day", 16, 'u', GET(M, m->mjd_num), 1, 59000); s.val("second", 17, 'u', GET(M, m->utc_sec_of_day), 1, 65000);
  s.val("characters", 7, 'u', GET(M, m->unicode_chars), 1, chars); s.val("units", 8, 'u', GET(M, m->utf8_code_units_n), 1, n, true);
  for (int i = 0; i < n; i++) s.val(mc::fmt("unit[%d]", i), 8, 'u', GET(M, m->utf8_code_units[i]), 1, 'a' + i % 26);
  return s;
}
inline Shape m1033(int a, int b_, int c_, int d, int e) {
  typedef rtcm_msg_1033 M; Shape s; s.name = mc::fmt("1033/%d/%d/%d/%d/%d", a, b_, c_, d, e); s.num = 1033; s.size = sizeof(M);
  s.dec = [](swiftnav_bitstream_t *b, void *p) { return rtcm3_decode_1033_bitstream(b, (M *)p); }; s.enc = [](const void *p, uint8_t *b) { return rtcm3_encode_1033((const M *)p, b); };
  s.add("number", 12, 'u', 1033, true); s.val("station", 12, 'u', GET(M, m->stn_id), 1, 4000);
  text(s, "antenna", a, [](const void *p) { return ((const M *)p)->ant_descriptor; }, GET(M, m->ant_descriptor_counter), true);
  s.val("setup", 8, 'u', GET(M, m->ant_setup_id), 1, 9);
  text(s, "antenna serial", b_, [](const void *p) { return ((const M *)p)->ant_serial_num; }, GET(M, m->ant_serial_num_counter), true);
  text(s, "receiver", c_, [](const void *p) { return ((const M *)p)->rcv_descriptor; }, GET(M, m->rcv_descriptor_counter), true);
  text(s, "firmware", d, [](const void *p) { return ((const M *)p)->rcv_fw_version; }, GET(M, m->rcv_fw_version_counter), true);
  text(s, "receiver serial", e, [](const void *p) { return ((const M *)p)->rcv_serial_num; }, GET(M, m->rcv_serial_num_counter), true); return s;
}
inline Shape m1230(int mask) {
  typedef rtcm_msg_1230 M; Shape s; s.name = mc::fmt("1230/%d", mask); s.num = 1230; s.size = sizeof(M);
  s.dec = [](swiftnav_bitstream_t *b, void *p) { return rtcm3_decode_1230_bitstream(b, (M *)p); }; s.enc = [](const void *p, uint8_t *b) { return rtcm3_encode_1230((const M *)p, b); };
  s.add("number", 12, 'u', 1230, true); s.val("station", 12, 'u', GET(M, m->stn_id), 1, 8); s.val("indicator", 1, 'u', GET(M, m->bias_indicator), 1, 1);
  int res = s.add("reserved", 3, 'u', 0); s.val("mask", 4, 'u', GET(M, m->fdma_signal_mask), 1, mask, true);
  auto bias = [&](const char *n, int bit, std::function<double(const void *)> g, int64_t def) { if (mask & bit) s.val(n, 16, 's', g, 0.02, def); else s.out(n, g, [](const Raw &) { return 0; }); };
  bias("L1 C/A", 8, GET(M, m->L1_CA_cpb_meter), 1111); bias("L1 P", 4, GET(M, m->L1_P_cpb_meter), -2222);
  bias("L2 C/A", 2, GET(M, m->L2_CA_cpb_meter), 3333); bias("L2 P", 1, GET(M, m->L2_P_cpb_meter), -4444);
  s.encodable = [res](const Raw &r) { return r[res] == 0; };
  return s;
}
inline Shape m4062(int n) {
  typedef rtcm_msg_swift_proprietary M; Shape s; s.name = mc::fmt("4062/%d", n); s.num = 4062; s.size = sizeof(M);
  s.dec = [](swiftnav_bitstream_t *b, void *p) { return rtcm3_decode_4062_bitstream(b, (M *)p); }; s.enc = [](const void *p, uint8_t *b) { return rtcm3_encode_4062((const M *)p, b); };
  s.add("number", 12, 'u', 4062, true); int res = s.add("reserved", 4, 'u', 0); s.val("type", 16, 'u', GET(M, m->msg_type), 1, 522); s.val("sender", 16, 'u', GET(M, m->sender_id), 1, 0x1234); s.val("length", 8, 'u', GET(M, m->len), 1, n, true);
  for (int i = 0; i < n; i++) s.val(mc::fmt("data[%d]", i), 8, 'u', GET(M, m->data[i]), 1, (i * 37 + 5) & 0xFF);
  s.ok = [res](const Raw &r) { return r[res] == 0; };
  return s;
}
inline Shape m4075(const std::vector<int> &sizes) {
  typedef rtcm_msg_ndf M; Shape s; s.name = "4075"; for (int z : sizes) s.name += mc::fmt("/%d", z); s.num = 4075; s.size = sizeof(M);
  s.dec = [](swiftnav_bitstream_t *b, void *p) { return rtcm3_decode_4075_bitstream(b, (M *)p); };
  s.add("number", 12, 'u', 4075, true); s.val("station", 12, 'u', GET(M, m->stn_id), 1, 0x321); int res = s.add("reserved", 2, 'u', 0); s.val("frames", 6, 'u', GET(M, m->frame_count), 1, (int)sizes.size(), true);
  for (size_t k = 0; k < sizes.size(); k++) {
    auto nm = [&](const char *x) { return mc::fmt("%s[%zu]", x, k); };
    s.val(nm("system"), 4, 'u', GET(M, m->frames[k].sat_sys), 1, (int)k); s.val(nm("sat"), 6, 'u', GET(M, m->frames[k].sat_num), 1, 17); s.val(nm("extended"), 4, 'u', GET(M, m->frames[k].ext_sat_info), 1, 9);
    s.val(nm("signal"), 5, 'u', GET(M, m->frames[k].sig_type), 1, 21); s.val(nm("epoch"), 30, 'u', GET(M, m->frames[k].epoch_time), 1, 123456789); s.val(nm("tracking"), 1, 'u', GET(M, m->frames[k].continuous_tracking), 1, 1);
    s.val(nm("size"), 12, 'u', GET(M, m->frames[k].frame_data_size_bits), 1, sizes[k], true);
    int left = sizes[k];
    for (int j = 0; left > 0; j++) { int n = left < 32 ? left : 32; s.val(mc::fmt("word[%zu][%d]", k, j), n, 'u', GET(M, m->frames[k].frame_data[j]), 1, (0x9E3779B9ll * (j + 1)) & ((1ll << n) - 1)); left -= n; }
  }
  s.ok = [res](const Raw &r) { return r[res] == 0; };
  return s;
}
// ---------------------------------------------------------------- ephemerides
#define K(e) GET(rtcm_msg_eph, m->data.kepler.e)
#define EP(e) GET(rtcm_msg_eph, m->e)
inline void kepler_core(Shape &s, int cw, int toew) {   // crs .. argument of perigee and rate, widths of the harmonic corrections and of toe
  s.val("crs", cw, 's', K(crs), 1, 1234); s.val("dn", 16, 's', K(dn), 1, -4321); s.val("m0", 32, 's', K(m0), 1, 1234567890); s.val("cuc", cw, 's', K(cuc), 1, -77); s.val("ecc", 32, 'u', K(ecc), 1, 0x81234567ll);
  s.val("cus", cw, 's', K(cus), 1, 88); s.val("sqrta", 32, 'u', K(sqrta), 1, 0xA1234567ll); s.val("toe", toew, 'u', EP(toe), 1, 9000); s.val("cic", cw, 's', K(cic), 1, -5); s.val("omega0", 32, 's', K(omega0), 1, -1987654321);
  s.val("cis", cw, 's', K(cis), 1, 6); s.val("inc", 32, 's', K(inc), 1, 654321987); s.val("crc", cw, 's', K(crc), 1, 9999); s.val("w", 32, 's', K(w), 1, -123123123); s.val("omegadot", 24, 's', K(omegadot), 1, -23456);
}
inline void eph_common(Shape &s, const char *n, int num, rtcm_constellation_t cons) {
  s.name = n; s.num = num; s.size = sizeof(rtcm_msg_eph); s.add("number", 12, 'u', num, true);
  s.out("constellation", EP(constellation), [cons](const Raw &) { return (double)cons; });
}
#define DEC(fn) s.dec = [](swiftnav_bitstream_t *b, void *p) { return fn(b, (rtcm_msg_eph *)p); }
#define ENC(fn) s.enc = [](const void *p, uint8_t *b) { return fn((const rtcm_msg_eph *)p, b); }
inline Shape m1019() {
  Shape s; eph_common(s, "1019", 1019, RTCM_CONSTELLATION_GPS); DEC(rtcm3_decode_gps_eph_bitstream); ENC(rtcm3_encode_gps_eph);
  s.val("sat", 6, 'u', EP(sat_id), 1, 17); s.val("week", 10, 'u', EP(wn), 1, 512); s.val("accuracy", 4, 'u', EP(ura), 1, 2); s.val("L2 code", 2, 'u', K(codeL2), 1, 1); s.val("inc_dot", 14, 's', K(inc_dot), 1, -123);
  s.val("iode", 8, 'u', K(iode), 1, 55); s.val("toc", 16, 'u', K(toc), 1, 10000); s.val("af2", 8, 's', K(af2), 1, -3); s.val("af1", 16, 's', K(af1), 1, 333); s.val("af0", 22, 's', K(af0), 1, -98765); s.val("iodc", 10, 'u', K(iodc), 1, 311);
  kepler_core(s, 16, 16);
  s.val("tgd", 8, 's', K(tgd.gps_s), 1, -9); s.val("health", 6, 'u', EP(health_bits), 1, 0); s.val("L2 data", 1, 'u', K(L2_data_bit), 1, 1); s.val("fit", 1, 'u', EP(fit_interval), 1, 0); return s;
}
inline Shape m1044() {
  Shape s; eph_common(s, "1044", 1044, RTCM_CONSTELLATION_QZS); DEC(rtcm3_decode_qzss_eph_bitstream);
  s.val("sat", 4, 'u', EP(sat_id), 1, 3); s.val("toc", 16, 'u', K(toc), 1, 10000); s.val("af2", 8, 's', K(af2), 1, -3); s.val("af1", 16, 's', K(af1), 1, 333); s.val("af0", 22, 's', K(af0), 1, -98765); s.val("iode", 8, 'u', K(iode), 1, 55);
  kepler_core(s, 16, 16);
  s.val("inc_dot", 14, 's', K(inc_dot), 1, -123); s.add("L2 code", 2, 'u', 2); s.val("week", 10, 'u', EP(wn), 1, 512); s.val("accuracy", 4, 'u', EP(ura), 1, 2); s.val("health", 6, 'u', EP(health_bits), 1, 0);
  s.val("tgd", 8, 's', K(tgd.gps_s), 1, -9); s.val("iodc", 10, 'u', K(iodc), 1, 311); s.val("fit", 1, 'u', EP(fit_interval), 1, 0); return s;
}
inline Shape m1042() {
  Shape s; eph_common(s, "1042", 1042, RTCM_CONSTELLATION_BDS); DEC(rtcm3_decode_bds_eph_bitstream); ENC(rtcm3_encode_bds_eph);
  int sat = s.val("sat", 6, 'u', EP(sat_id), 1, 17); s.val("week", 13, 'u', EP(wn), 1, 512); s.val("accuracy", 4, 'u', EP(ura), 1, 2); s.val("inc_dot", 14, 's', K(inc_dot), 1, -123); s.val("iode", 5, 'u', K(iode), 1, 21);
  s.val("toc", 17, 'u', K(toc), 1, 10000); s.val("af2", 11, 's', K(af2), 1, -3); s.val("af1", 22, 's', K(af1), 1, 333); s.val("af0", 24, 's', K(af0), 1, -98765); s.val("iodc", 5, 'u', K(iodc), 1, 11);
  kepler_core(s, 18, 17);
  s.val("tgd1", 10, 's', K(tgd.bds_s[0]), 1, -9); s.val("tgd2", 10, 's', K(tgd.bds_s[1]), 1, 99); s.val("health", 1, 'u', EP(health_bits), 1, 0);
  s.ok = [sat](const Raw &r) { return r[sat] > 5; }; return s;
}
inline Shape m104x(bool inav) {
  Shape s; eph_common(s, inav ? "1046" : "1045", inav ? 1046 : 1045, RTCM_CONSTELLATION_GAL);
  if (inav) { DEC(rtcm3_decode_gal_eph_inav_bitstream); ENC(rtcm3_encode_gal_eph_inav); } else { DEC(rtcm3_decode_gal_eph_fnav_bitstream); ENC(rtcm3_encode_gal_eph_fnav); }
  s.val("sat", 6, 'u', EP(sat_id), 1, 17); s.val("week", 12, 'u', EP(wn), 1, 1012); s.val("iod", 10, 'u', K(iode), 1, 555); s.val("accuracy", 8, 'u', EP(ura), 1, 107); s.val("inc_dot", 14, 's', K(inc_dot), 1, -123);
  s.val("toc", 14, 'u', K(toc), 1, 10000); s.val("af2", 6, 's', K(af2), 1, -3); s.val("af1", 21, 's', K(af1), 1, 333); s.val("af0", 31, 's', K(af0), 1, -98765);
  kepler_core(s, 16, 14);
  s.val("bgd1", 10, 's', K(tgd.gal_s[0]), 1, -9); int res;
  if (inav) { s.val("bgd2", 10, 's', K(tgd.gal_s[1]), 1, 99); s.val("health", 6, 'u', EP(health_bits), 1, 0); res = s.add("reserved", 2, 'u', 0); }
  else { s.val("health", 3, 'u', EP(health_bits), 1, 0); res = s.add("reserved", 7, 'u', 0); s.out("no second delay", K(tgd.gal_s[1]), [](const Raw &) { return 0; }); }
  s.encodable = [res](const Raw &r) { return r[res] == 0; };
  return s;
}
inline Shape m1020(bool additional) {
  Shape s; eph_common(s, additional ? "1020/1" : "1020/0", 1020, RTCM_CONSTELLATION_GLO); DEC(rtcm3_decode_glo_eph_bitstream); ENC(rtcm3_encode_glo_eph);
#define GL(e) GET(rtcm_msg_eph, m->data.glo.e)
  s.val("sat", 6, 'u', EP(sat_id), 1, 7); s.val("fcn", 5, 'u', GL(fcn), 1, 9); s.add("almanac health", 1, 'u', 1); s.add("almanac health available", 1, 'u', 1); s.val("P1", 2, 'u', EP(fit_interval), 1, 2); s.add("tk", 12, 'u', 0x5A5);
  int bn = s.add("Bn", 1, 'u', 0); s.add("P2", 1, 'u', 1); s.val("tb", 7, 'u', GL(t_b), 1, 45);
  for (int k = 0; k < 3; k++) {
    s.val(mc::fmt("vel[%d]", k), 24, 'm', GL(vel[k]), 1, 1000000 - 777777 * k); s.val(mc::fmt("pos[%d]", k), 27, 'm', GL(pos[k]), 1, -20000000 + 19999999 * k); s.val(mc::fmt("acc[%d]", k), 5, 'm', GL(acc[k]), 1, -3 + 2 * k);
  }
  s.add("P3", 1, 'u', 1); s.val("gamma", 11, 'm', GL(gamma), 1, -301); s.add("P", 2, 'u', 3); int l3 = s.add("ln3", 1, 'u', 0); s.val("tau", 22, 'm', GL(tau), 1, 123456); s.val("dtau", 5, 'm', GL(d_tau), 1, -4);
  s.add("En", 5, 'u', 17); s.add("P4", 1, 'u', 1); s.val("FT", 4, 'u', EP(ura), 1, 6); s.add("NT", 11, 'u', 999); s.add("M", 2, 'u', 1); s.add("additional", 1, 'u', additional, true);
  s.add("NA", 11, 'u', 998); s.add("tau_c", 32, 's', -12345); s.add("N4", 5, 'u', 6); s.add("tau_GPS", 22, 's', 4321); int l5 = s.add("ln5", 1, 'u', 0); s.add("reserved", 7, 'u', 0);
  s.out("health", EP(health_bits), [=](const Raw &r) { return (double)(r[bn] | r[l3] | (additional ? r[l5] : 0)); });
  s.encodable = [](const Raw &) { return false; };   // the encoder leaves out what the SBP message cannot carry
  return s;
}
// ---------------------------------------------------------------- SSR corrections
enum { ORBIT, CLOCK, CODE, COMBINED, PHASE };
inline int ssr_number(int cons, int what) {
  static const int B[] = {1057, 0, 1063, 1258, 1246, 1240}, P[] = {1265, 1269, 1266, 1270, 1268, 1267};
  return what == PHASE ? P[cons] : B[cons] ? B[cons] + (what == ORBIT ? 0 : what == CLOCK ? 1 : what == CODE ? 2 : 3) : 0;
}
inline Shape ssr(int cons, int what, const std::vector<int> &sats /* number of biases of each satellite */) {
  Shape s; int num = ssr_number(cons, what); s.name = mc::fmt("%d/%zu", num, sats.size()); if (what == CODE || what == PHASE) for (int n : sats) s.name += mc::fmt("/%d", n); s.num = num;
  // the header is the first member of every result
  typedef rtcm_msg_ssr_header H; bool orb = what == ORBIT || what == COMBINED;
  switch (what) {
    case ORBIT: s.size = sizeof(rtcm_msg_orbit); s.dec = [](swiftnav_bitstream_t *b, void *p) { return rtcm3_decode_orbit_bitstream(b, (rtcm_msg_orbit *)p); }; break;
    case CLOCK: s.size = sizeof(rtcm_msg_clock); s.dec = [](swiftnav_bitstream_t *b, void *p) { return rtcm3_decode_clock_bitstream(b, (rtcm_msg_clock *)p); }; break;
    case CODE: s.size = sizeof(rtcm_msg_code_bias); s.dec = [](swiftnav_bitstream_t *b, void *p) { return rtcm3_decode_code_bias_bitstream(b, (rtcm_msg_code_bias *)p); }; break;
    case COMBINED: s.size = sizeof(rtcm_msg_orbit_clock); s.dec = [](swiftnav_bitstream_t *b, void *p) { return rtcm3_decode_orbit_clock_bitstream(b, (rtcm_msg_orbit_clock *)p); }; break;
    default: s.size = sizeof(rtcm_msg_phase_bias); s.dec = [](swiftnav_bitstream_t *b, void *p) { return rtcm3_decode_phase_bias_bitstream(b, (rtcm_msg_phase_bias *)p); }; break;
  }
  s.val("number", 12, 'u', GET(H, m->message_num), 1, num, true);
  s.val("epoch", cons == msmref::GLO ? 17 : 20, 'u', GET(H, m->epoch_time), 1, 43210);
  s.out("constellation", GET(H, m->constellation), [cons](const Raw &) { return cons; });
  s.val("interval", 4, 'u', GET(H, m->update_interval), 1, 2); s.val("multiple", 1, 'u', GET(H, m->multi_message), 1, 1);
  if (orb) s.val("datum", 1, 'u', GET(H, m->sat_ref_datum), 1, 0);
  s.val("iod", 4, 'u', GET(H, m->iod_ssr), 1, 9); s.val("provider", 16, 'u', GET(H, m->ssr_provider_id), 1, 0x7123); s.val("solution", 4, 'u', GET(H, m->ssr_solution_id), 1, 3);
  if (what == PHASE) { s.val("dispersive", 1, 'u', GET(H, m->dispersive_bias_consistency), 1, 1); s.val("widelane", 1, 'u', GET(H, m->melbourne_wubbena_consistency), 1, 0); }
  s.val("count", 6, 'u', GET(H, m->num_sats), 1, (int)sats.size(), true);
  int idw = cons == msmref::GLO ? 5 : cons == msmref::QZS ? 4 : 6;
  for (size_t k = 0; k < sats.size(); k++) {
    auto nm = [&](const char *x) { return mc::fmt("%s[%zu]", x, k); };
    int64_t z = (int64_t)k + 1; int sf = (int)s.f.size();
    if (orb) {
      auto O = [=](const void *p) { return what == ORBIT ? &((const rtcm_msg_orbit *)p)->orbit[k] : &((const rtcm_msg_orbit_clock *)p)->orbit[k]; };
#define OG(e) [=](const void *p_) -> double { auto m = O(p_); return (double)(m->e); }
      s.val(nm("sat"), idw, 'u', OG(sat_id), 1, z % (1 << idw));
      if (cons == msmref::BDS) { s.add(nm("toe"), 10, 'u', 700 + z); s.val(nm("iode"), 8, 'u', OG(iode), 1, 0xA0 + z % 16); }
      else if (cons == msmref::SBAS) { s.val(nm("iode"), 9, 'u', OG(iode), 1, 300); s.val(nm("iodcrc"), 24, 'u', OG(iodcrc), 1, 0x123456); }
      else s.val(nm("iode"), cons == msmref::GAL ? 10 : 8, 'u', OG(iode), 1, 0xA0 + z % 16);
      s.val(nm("radial"), 22, 's', OG(radial), 1, -12345 * z); s.val(nm("along"), 20, 's', OG(along_track), 1, 2345 * z); s.val(nm("cross"), 20, 's', OG(cross_track), 1, -3456 * z);
      s.val(nm("radial rate"), 21, 's', OG(dot_radial), 1, 456 * z); s.val(nm("along rate"), 19, 's', OG(dot_along_track), 1, -567 * z); s.val(nm("cross rate"), 19, 's', OG(dot_cross_track), 1, 678 * z);
#undef OG
    }
    if (what == CLOCK || what == COMBINED) {
      auto Q = [=](const void *p) { return what == CLOCK ? &((const rtcm_msg_clock *)p)->clock[k] : &((const rtcm_msg_orbit_clock *)p)->clock[k]; };
#define CG(e) [=](const void *p_) -> double { auto m = Q(p_); return (double)(m->e); }
      if (what == CLOCK) s.val(nm("sat"), idw, 'u', CG(sat_id), 1, z % (1 << idw));
      else s.out(nm("clock sat"), CG(sat_id), [sf](const Raw &r) { return (double)r[(size_t)sf]; });
      s.val(nm("c0"), 22, 's', CG(c0), 1, -77777 * z); s.val(nm("c1"), 21, 's', CG(c1), 1, 8888 * z); s.val(nm("c2"), 27, 's', CG(c2), 1, -99999 * z);
#undef CG
    }
    if (what == CODE) {
      typedef rtcm_msg_code_bias M; s.val(nm("sat"), idw, 'u', GET(M, m->sats[k].sat_id), 1, z % (1 << idw)); s.val(nm("biases"), 5, 'u', GET(M, m->sats[k].num_code_biases), 1, sats[k], true);
      for (int j = 0; j < sats[k]; j++) { s.val(mc::fmt("signal[%zu][%d]", k, j), 5, 'u', GET(M, m->sats[k].signals[j].signal_id), 1, j); s.val(mc::fmt("bias[%zu][%d]", k, j), 14, 's', GET(M, m->sats[k].signals[j].code_bias), 1, -1000 + 13 * j); }
    }
    if (what == PHASE) {
      typedef rtcm_msg_phase_bias M; s.val(nm("sat"), idw, 'u', GET(M, m->sats[k].sat_id), 1, z % (1 << idw)); s.val(nm("biases"), 5, 'u', GET(M, m->sats[k].num_phase_biases), 1, sats[k], true);
      s.val(nm("yaw"), 9, 'u', GET(M, m->sats[k].yaw_angle), 1, 300); s.val(nm("yaw rate"), 8, 's', GET(M, m->sats[k].yaw_rate), 1, -5);
      for (int j = 0; j < sats[k]; j++) {
        auto jm = [&](const char *x) { return mc::fmt("%s[%zu][%d]", x, k, j); };
        s.val(jm("signal"), 5, 'u', GET(M, m->sats[k].signals[j].signal_id), 1, j); s.val(jm("integer"), 1, 'u', GET(M, m->sats[k].signals[j].integer_indicator), 1, 1); s.val(jm("wide lane"), 2, 'u', GET(M, m->sats[k].signals[j].widelane_indicator), 1, 2);
        s.val(jm("discontinuity"), 4, 'u', GET(M, m->sats[k].signals[j].discontinuity_indicator), 1, 7); s.val(jm("bias"), 20, 's', GET(M, m->sats[k].signals[j].phase_bias), 1, -100000 + 1313 * j);
      }
    }
  }
  return s;
}
// ---------------------------------------------------------------- multi-signal messages
inline Shape msm(const msmref::Msg &q, const std::string &name) {
  using namespace msmref; typedef rtcm_msm_message M; Shape s; int num = q.num ? q.num : base(q.cons) + q.kind; s.name = name; s.num = num; s.size = sizeof(M); int kind = q.kind, cons = q.cons; W w = widths(kind);
  switch (kind) {
#define D(k) case k: s.dec = [](swiftnav_bitstream_t *b, void *p) { return rtcm3_decode_msm##k##_bitstream(b, (M *)p); }; break;
    D(4) D(5) D(6) D(7)
#undef D
  }
  if (kind == 4) s.enc = [](const void *p, uint8_t *b) { return rtcm3_encode_msm4((const M *)p, b); };
  if (kind == 5) s.enc = [](const void *p, uint8_t *b) { return rtcm3_encode_msm5((const M *)p, b); };
#define HD(e) GET(M, m->header.e)
  s.val("number", 12, 'u', HD(msg_num), 1, num, true); s.val("station", 12, 'u', HD(stn_id), 1, q.stn);
  int ep;
  if (cons == GLO) { s.add("day of week", 3, 'u', q.epoch >> 27); ep = s.val("time of day", 27, 'u', HD(tow_ms), 1, q.epoch & 0x7FFFFFF); }
  else {
    ep = s.add("time", 30, 'u', q.epoch);
    s.out("time", HD(tow_ms), [=](const Raw &r) {
      // BeiDou times of the last 14 s before the field's own wrap are written as negative numbers by some stations
      if (cons == BDS && r[ep] >= (1ll << 30) - 14000) return (double)(604800000ll - ((1ll << 30) - r[ep])); return (double)r[ep]; });
  }
  s.val("multiple", 1, 'u', HD(multiple), 1, q.mult); s.val("iods", 3, 'u', HD(iods), 1, q.iods); s.val("reserved", 7, 'u', HD(reserved), 1, q.res7); s.val("steering", 2, 'u', HD(steering), 1, q.steer); s.val("external", 2, 'u', HD(ext_clock), 1, q.ext);
  s.val("divergence free", 1, 'u', HD(div_free), 1, q.df); s.val("smoothing", 3, 'u', HD(smooth), 1, q.smooth);
  for (int i = 0; i < 64; i++) s.val(mc::fmt("sat mask %d", i), 1, 'u', HD(satellite_mask[i]), 1, q.sat_mask >> (63 - i) & 1, true);
  for (int i = 0; i < 32; i++) s.val(mc::fmt("signal mask %d", i), 1, 'u', HD(signal_mask[i]), 1, q.sig_mask >> (31 - i) & 1, true);
  for (size_t i = 0; i < q.cells.size(); i++) s.val(mc::fmt("cell %zu", i), 1, 'u', HD(cell_mask[i]), 1, q.cells[i], true);
  int ns = q.nsat(), ng = q.nsig(), nc = q.ncell(); std::vector<int> fms, fmod, frate, finfo, sat_of;
  for (int i = 0; i < ns * ng; i++) if (q.cells[(size_t)i]) sat_of.push_back(i / ng);
  for (int i = 0; i < ns; i++) fms.push_back(s.add(mc::fmt("ms[%d]", i), 8, 'u', q.sats[i].ms));
  if (w.ext) for (int i = 0; i < ns; i++) finfo.push_back(s.val(mc::fmt("info[%d]", i), 4, 'u', GET(M, m->sats[i].glo_fcn), 1, q.sats[i].info));
  for (int i = 0; i < ns; i++) fmod.push_back(s.add(mc::fmt("mod[%d]", i), 10, 'u', q.sats[i].mod));
  if (w.ext) for (int i = 0; i < ns; i++) frate.push_back(s.add(mc::fmt("rough rate[%d]", i), 14, 's', q.sats[i].rate));
  std::vector<int> pr, cp, lk, hc, cn, rt;
  for (int i = 0; i < nc; i++) pr.push_back(s.add(mc::fmt("pr[%d]", i), w.pr, 's', q.sigs[i].pr));
  for (int i = 0; i < nc; i++) cp.push_back(s.add(mc::fmt("cp[%d]", i), w.cp, 's', q.sigs[i].cp));
  for (int i = 0; i < nc; i++) lk.push_back(s.add(mc::fmt("lock[%d]", i), w.lock, 'u', q.sigs[i].lock));
  for (int i = 0; i < nc; i++) hc.push_back(s.val(mc::fmt("half cycle[%d]", i), 1, 'u', GET(M, m->signals[i].hca_indicator), 1, q.sigs[i].hca));
  for (int i = 0; i < nc; i++) cn.push_back(s.add(mc::fmt("cnr[%d]", i), w.cnr, 'u', q.sigs[i].cnr));
  if (w.ext) for (int i = 0; i < nc; i++) rt.push_back(s.add(mc::fmt("rate[%d]", i), 15, 's', q.sigs[i].rate));
  for (int i = 0; i < ns; i++) {
    int a = fms[i], b = fmod[i];
    s.out(mc::fmt("rough range[%d]", i), GET(M, m->sats[i].rough_range_ms), [=](const Raw &r) { return (double)r[a] + (double)r[b] / 1024; }, 1e-12, [=](const Raw &r) { return r[a] != 255; });
    if (w.ext) { int z = frate[i]; s.out(mc::fmt("rough rate[%d]", i), GET(M, m->sats[i].rough_range_rate_m_s), [=](const Raw &r) { return (double)r[z]; }, 1e-12, [=](const Raw &r) { return r[z] != -8192; }); }
    else if (cons == GLO) s.out(mc::fmt("unknown channel[%d]", i), GET(M, m->sats[i].glo_fcn), [](const Raw &) { return 255; });
  }
  for (int i = 0; i < nc; i++) {
    int a = fms[sat_of[i]], b = fmod[sat_of[i]], p = pr[i], c = cp[i], l = lk[i], n = cn[i]; bool e = kind >= 6;
    int64_t pinv = -(1ll << (w.pr - 1)), cinv = -(1ll << (w.cp - 1)); double pres = e ? std::ldexp(1, -29) : std::ldexp(1, -24), cres = e ? std::ldexp(1, -31) : std::ldexp(1, -29);
    auto vp = [=](const Raw &r) { return r[a] != 255 && r[p] != pinv; }; auto vc = [=](const Raw &r) { return r[a] != 255 && r[c] != cinv; };
    auto rough = [=](const Raw &r) { return (double)r[a] + (double)r[b] / 1024; };
#define SG(x) GET(M, m->signals[i].x)
    s.out(mc::fmt("pr valid[%d]", i), SG(flags.fields.valid_pr), [=](const Raw &r) { return vp(r); });
    s.out(mc::fmt("pr[%d]", i), SG(pseudorange_ms), [=](const Raw &r) { return rough(r) + (double)r[p] * pres; }, 1e-12, vp);
    s.out(mc::fmt("cp valid[%d]", i), SG(flags.fields.valid_cp), [=](const Raw &r) { return vc(r); });
    s.out(mc::fmt("cp[%d]", i), SG(carrier_phase_ms), [=](const Raw &r) { return rough(r) + (double)r[c] * cres; }, 1e-12, vc);
    s.out(mc::fmt("lock[%d]", i), SG(lock_time_s), [=](const Raw &r) { return e ? lock10((uint32_t)r[l]) : lock4((uint32_t)r[l]); }, 1e-9);
    s.out(mc::fmt("cnr valid[%d]", i), SG(flags.fields.valid_cnr), [=](const Raw &r) { return r[n] != 0; });
    s.out(mc::fmt("cnr[%d]", i), SG(cnr), [=](const Raw &r) { return (double)r[n] * (e ? 0.0625 : 1); }, 1e-9, [=](const Raw &r) { return r[n] != 0; });
    if (w.ext) {
      int z = frate[sat_of[i]], d = rt[i]; auto vd = [=](const Raw &r) { return r[z] != -8192 && r[d] != -16384; };
      s.out(mc::fmt("rate valid[%d]", i), SG(flags.fields.valid_dop), [=](const Raw &r) { return vd(r); });
      s.out(mc::fmt("rate[%d]", i), SG(range_rate_m_s), [=](const Raw &r) { return (double)r[z] + 0.0001 * (double)r[d]; }, 1e-8, vd);
    } else s.out(mc::fmt("no rate[%d]", i), SG(flags.fields.valid_dop), [](const Raw &) { return 0; });
#undef SG
  }
  s.ok = [=](const Raw &r) { int64_t t = r[ep]; if (cons == GLO) return t <= 86399999; if (cons == BDS && t >= (1ll << 30) - 14000) return true; return t <= 604799999; };
  return s;
}
inline msmref::Msg msm_msg(int cons, int kind, uint64_t sm, uint32_t gm, int cellpat) {
  msmref::Msg q; q.cons = cons; q.kind = kind; q.sat_mask = sm; q.sig_mask = gm; int n = q.nsat() * q.nsig();
  for (int i = 0; i < n; i++) q.cells.push_back(cellpat == 0 ? true : cellpat == 1 ? i % 2 == 0 : cellpat == 2 ? false : (i * 7 / 3) % 3 != 1);
  q.fill((uint32_t)(cons * 8 + kind)); return q;
}
// every message but the multi-signal ones
inline std::vector<Shape> other_shapes() {
  std::vector<Shape> v;
  for (int n : {1001, 1002, 1003, 1004, 1010, 1012}) for (int k : {0, 1, 2, 31}) v.push_back(legacy(n, k));
  v.push_back(m1005()); v.push_back(m1006());
  for (int l : {0, 1, 31, 32}) { v.push_back(m1007(l)); v.push_back(m1008(l, 0)); v.push_back(m1008(3, l)); }
  for (int n : {0, 1, 5, 255}) v.push_back(m1029(n, n > 127 ? 127 : n));
  v.push_back(m1033(0, 0, 0, 0, 0)); v.push_back(m1033(1, 2, 3, 4, 5)); v.push_back(m1033(32, 0, 31, 1, 32)); v.push_back(m1033(31, 32, 30, 32, 31)); v.push_back(m1033(2, 32, 0, 32, 0));
  for (int m = 0; m < 16; m++) v.push_back(m1230(m));
  for (int n : {0, 1, 17, 255}) v.push_back(m4062(n));
  v.push_back(m4075({})); v.push_back(m4075({0})); v.push_back(m4075({1, 31})); v.push_back(m4075({32, 33, 250})); v.push_back(m4075({4095, 64}));
  v.push_back(m1019()); v.push_back(m1020(false)); v.push_back(m1020(true)); v.push_back(m1042()); v.push_back(m1044()); v.push_back(m104x(true)); v.push_back(m104x(false));
  return v;
}
inline std::vector<Shape> ssr_shapes() {
  std::vector<Shape> v;
  for (int c = 0; c < 6; c++) for (int w = 0; w < 5; w++) {
    if (!ssr_number(c, w)) continue;
    if (w == CODE || w == PHASE) { v.push_back(ssr(c, w, {})); v.push_back(ssr(c, w, {0})); v.push_back(ssr(c, w, {2, 0, 3})); v.push_back(ssr(c, w, {31, 1})); }
    else { v.push_back(ssr(c, w, {})); v.push_back(ssr(c, w, {0})); v.push_back(ssr(c, w, {0, 0, 0})); if (c == 0 || c == 3) v.push_back(ssr(c, w, std::vector<int>(w == CLOCK ? 63 : 40, 0))); }
  }
  return v;
}
inline std::vector<Shape> msm_shapes(bool all) {
  std::vector<Shape> v; using namespace msmref;
  struct P { uint64_t s; uint32_t g; int c; };
  static const P PS[] = {{0, 0, 0}, {1ull << 62, 1u << 30, 0}, {1ull << 63 | 1ull << 40 | 1, 1u << 31 | 1u << 16 | 1, 3}, {0x0080001000000200ull, 0x40400000u, 1}, {1ull << 20, 0x0F000000u, 2}, {0xFFFF000000000000ull, 0x43020000u, 0}};
  for (int c = 0; c < 6; c++) for (int k = 4; k <= 7; k++) for (int i = 0; i < (all ? 6 : 4); i++) v.push_back(msm(msm_msg(c, k, PS[i].s, PS[i].g, PS[i].c), mc::fmt("%d/%d", base(c) + k, i)));
  return v;
}
}  // namespace rtcmref
