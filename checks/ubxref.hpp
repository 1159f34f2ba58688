// u-blox messages described field by field from the interface description: each Shape is one message with a fixed
// number of repeated blocks, its fields in order (width in bytes, U unsigned, I signed, R real), and where the
// library's structure reports each of them.
#pragma once
#include "mc.hpp"
#include <cmath>
#include <functional>
#include <memory>
#include <type_traits>
extern "C" {
#include <ubx/decode.h>
#include <ubx/encode.h>
}
namespace ubxref {
using mc::Bytes;
typedef std::vector<uint64_t> Raw;
struct Field { std::string name; int w; char t; size_t off; std::function<uint64_t(const void *)> get; bool fixed; uint64_t def; };
template <class T> inline uint64_t bits_of(T v) {
  if constexpr (std::is_floating_point<T>::value) { uint64_t r = 0; memcpy(&r, &v, sizeof v); return r; }
  else return (uint64_t)(int64_t)v;
}
struct Shape {
  std::string name; int cls = 0, id = 0; size_t size = 0, bytes_n = 4;
  std::vector<Field> f;
  std::function<ubx_rc(swiftnav_bytestream_t *, void *)> dec; std::function<uint16_t(const void *, uint8_t *)> enc;
  void add(const std::string &n, int w, char t, std::function<uint64_t(const void *)> g, bool fixed = false, uint64_t def = 0) {
    f.push_back({n, w, t, bytes_n, g, fixed, def}); bytes_n += (size_t)w;
  }
  size_t payload() const { return bytes_n - 4; }
  // a background in which every byte of the message is different from its neighbours
  Raw pattern(unsigned k) const {
    Raw r; for (auto &x : f) {
      if (x.fixed) { r.push_back(x.def); continue; }
      uint64_t v = 0; for (int i = 0; i < x.w; i++) v |= (uint64_t)(uint8_t)(k == 0 ? 0 : k == 1 ? 0xFF : (x.off + (size_t)i) * (k == 2 ? 37 : 101) + (k == 2 ? 11 : 130) + (x.off >> 8)) << 8 * i;
      r.push_back(v); }
    return r;
  }
  Bytes head(uint16_t len) const { return {(uint8_t)cls, (uint8_t)id, (uint8_t)len, (uint8_t)(len >> 8)}; }
  Bytes bytes(const Raw &r) const {
    Bytes b = head((uint16_t)payload());
    for (size_t i = 0; i < f.size(); i++) for (int k = 0; k < f[i].w; k++) b.push_back((uint8_t)(r[i] >> 8 * k));
    return b;
  }
  static uint64_t extended(const Field &x, uint64_t v) {
    if (x.w == 8) return v;
    v &= (1ull << 8 * x.w) - 1;
    if (x.t == 'I' && v >> (8 * x.w - 1)) v |= ~0ull << 8 * x.w;
    return v;
  }
};
#define UG(T, expr) [=](const void *p_) -> uint64_t { const T *m = (const T *)p_; return ubxref::bits_of(m->expr); }
#define UBX_SHAPE(T, nm, c, i, D, E) Shape s; typedef T M; s.name = nm; s.cls = c; s.id = i; s.size = sizeof(T); \
  s.dec = [](swiftnav_bytestream_t *b, void *o) { return D(b, (T *)o); }; s.enc = [](const void *m_, uint8_t *o) { return E((const T *)m_, o); };
#define U1(x) s.add(#x, 1, 'U', UG(M, x));
#define U2(x) s.add(#x, 2, 'U', UG(M, x));
#define U4(x) s.add(#x, 4, 'U', UG(M, x));
#define I1(x) s.add(#x, 1, 'I', UG(M, x));
#define I2(x) s.add(#x, 2, 'I', UG(M, x));
#define I4(x) s.add(#x, 4, 'I', UG(M, x));
#define UV(x, n) for (int k_ = 0; k_ < n; k_++) s.add(#x + std::to_string(k_), 1, 'U', UG(M, x[k_]));
inline Shape hnr_pvt() {
  UBX_SHAPE(ubx_hnr_pvt, "HNR-PVT", 0x28, 0x00, ubx_decode_hnr_pvt_bytestream, ubx_encode_hnr_pvt)
  U4(i_tow) U2(year) U1(month) U1(day) U1(hour) U1(min) U1(sec) U1(valid) I4(nano) U1(fix_type) U1(flags) UV(reserved1, 2)
  I4(lon) I4(lat) I4(height) I4(height_mean_sea_level) I4(ground_speed) I4(speed) I4(heading_of_motion) I4(heading_vehicle)
  U4(horizontal_accuracy) U4(vertical_accuracy) U4(speed_acc) U4(heading_acc) UV(reserved2, 4)
  return s;
}
inline Shape nav_att() {
  UBX_SHAPE(ubx_nav_att, "NAV-ATT", 0x01, 0x05, ubx_decode_nav_att_bytestream, ubx_encode_nav_att)
  U4(i_tow) U1(version) UV(reserved, 3) I4(roll) I4(pitch) I4(heading) U4(acc_roll) U4(acc_pitch) U4(acc_heading)
  return s;
}
inline Shape nav_clock() {
  UBX_SHAPE(ubx_nav_clock, "NAV-CLOCK", 0x01, 0x22, ubx_decode_nav_clock_bytestream, ubx_encode_nav_clock)
  U4(i_tow) I4(clk_bias) I4(clk_drift) U4(time_acc) U4(freq_acc)
  return s;
}
inline Shape nav_pvt() {
  UBX_SHAPE(ubx_nav_pvt, "NAV-PVT", 0x01, 0x07, ubx_decode_nav_pvt_bytestream, ubx_encode_nav_pvt)
  U4(i_tow) U2(year) U1(month) U1(day) U1(hour) U1(min) U1(sec) U1(valid) U4(time_acc) I4(nano) U1(fix_type) U1(flags) U1(flags2) U1(num_sats)
  I4(lon) I4(lat) I4(height) I4(height_mean_sea_level) U4(horizontal_accuracy) U4(vertical_accuracy) I4(vel_north) I4(vel_east) I4(vel_down)
  I4(ground_speed) I4(heading_of_motion) U4(speed_acc) U4(heading_acc) U2(PDOP) U1(flags3) UV(reserved1, 5) I4(heading_vehicle)
  I2(magnetic_declination) U2(magnetic_declination_accuracy)
  return s;
}
inline Shape nav_velecef() {
  UBX_SHAPE(ubx_nav_velecef, "NAV-VELECEF", 0x01, 0x11, ubx_decode_nav_velecef_bytestream, ubx_encode_nav_velecef)
  U4(i_tow) I4(ecefVX) I4(ecefVY) I4(ecefVZ) U4(speed_acc)
  return s;
}
inline Shape nav_status() {
  UBX_SHAPE(ubx_nav_status, "NAV-STATUS", 0x01, 0x03, ubx_decode_nav_status_bytestream, ubx_encode_nav_status)
  U4(i_tow) U1(fix_type) U1(status_flags) U1(fix_status) U1(status_flags_ext) U4(ttff_ms) U4(msss)
  return s;
}
inline Shape mga_gps_eph() {
  UBX_SHAPE(ubx_mga_gps_eph, "MGA-GPS-EPH", 0x13, 0x00, ubx_decode_mga_gps_eph_bytestream, ubx_encode_mga_gps_eph)
  U1(msg_type) U1(version) U1(sat_id) U1(reserved1) U1(fit_interval) U1(ura_index) U1(sat_health) I1(tgd) U2(iodc) U2(toc) U1(reserved2)
  I1(af2) I2(af1) I4(af0) I2(crs) I2(delta_N) I4(m0) I2(cuc) I2(cus) U4(e) U4(sqrt_A) U2(toe) I2(cic) I4(omega0) I2(cis) I2(crc) I4(i0)
  I4(omega) I4(omega_dot) I2(i_dot) UV(reserved3, 2)
  return s;
}
inline Shape esf_ins() {
  UBX_SHAPE(ubx_esf_ins, "ESF-INS", 0x10, 0x15, ubx_decode_esf_ins_bytestream, ubx_encode_esf_ins)
  U4(bitfield0) UV(reserved1, 4) U4(i_tow) I4(x_ang_rate) I4(y_ang_rate) I4(z_ang_rate) I4(x_accel) I4(y_accel) I4(z_accel)
  return s;
}
inline Shape rxm_rawx(int n) {
  UBX_SHAPE(ubx_rxm_rawx, "RXM-RAWX/" + std::to_string(n), 0x02, 0x15, ubx_decode_rxm_rawx_bytestream, ubx_encode_rawx)
  s.add("rcv_tow", 8, 'R', UG(M, rcv_tow)); U2(rcv_wn) I1(leap_second) s.add("num_meas", 1, 'U', UG(M, num_meas), true, (uint64_t)n);
  U1(rec_status) U1(version) UV(reserved1, 2)
  for (int i = 0; i < n; i++) {
    s.add("pseudorange", 8, 'R', UG(M, pseudorange_m[i])); s.add("carrier phase", 8, 'R', UG(M, carrier_phase_cycles[i])); s.add("doppler", 4, 'R', UG(M, doppler_hz[i]));
    U1(gnss_id[i]) U1(sat_id[i]) U1(sig_id[i]) U1(freq_id[i]) U2(lock_time[i]) U1(cno_dbhz[i]) U1(pr_std_m[i]) U1(cp_std_cycles[i]) U1(doppler_std_hz[i]) U1(track_state[i]) U1(reserved2[i])
  }
  return s;
}
inline Shape rxm_sfrbx(int n) {
  UBX_SHAPE(ubx_rxm_sfrbx, "RXM-SFRBX/" + std::to_string(n), 0x02, 0x13, ubx_decode_rxm_sfrbx_bytestream, ubx_encode_rxm_sfrbx)
  U1(gnss_id) U1(sat_id) U1(reserved1) U1(freq_id) s.add("num_words", 1, 'U', UG(M, num_words), true, (uint64_t)n); U1(channel) U1(version) U1(reserved2)
  for (int i = 0; i < n; i++) s.add("word " + std::to_string(i), 4, 'U', UG(M, data_words[i]));
  return s;
}
inline Shape nav_sat(int n) {
  UBX_SHAPE(ubx_nav_sat, "NAV-SAT/" + std::to_string(n), 0x01, 0x35, ubx_decode_nav_sat_bytestream, ubx_encode_nav_sat)
  U4(i_tow) U1(version) s.add("num_svs", 1, 'U', UG(M, num_svs), true, (uint64_t)n); U2(reserved1)
  for (int i = 0; i < n; i++) { U1(data[i].gnss_id) U1(data[i].sv_id) U1(data[i].cno) I1(data[i].elev) I2(data[i].azim) I2(data[i].pr_res) U4(data[i].flags) }
  return s;
}
inline Shape esf_meas(int n, unsigned low) {          // low: the eleven bits of the flags word below the count; bit 3 announces the calibration time tag
  UBX_SHAPE(ubx_esf_meas, mc::fmt("ESF-MEAS/%d/%x", n, low), 0x10, 0x02, ubx_decode_esf_meas_bytestream, ubx_encode_esf_meas)
  U4(time_tag) s.add("flags", 2, 'U', UG(M, flags), true, (uint64_t)(n << 11 | (int)(low & 0x7FF))); U2(id)
  for (int i = 0; i < n; i++) U4(data[i])
  if (low & 8) U4(calib_tag)
  return s;
}
inline Shape esf_raw(int n) {
  UBX_SHAPE(ubx_esf_raw, "ESF-RAW/" + std::to_string(n), 0x10, 0x03, ubx_decode_esf_raw_bytestream, ubx_encode_esf_raw)
  U4(msss)
  for (int i = 0; i < n; i++) { U4(data[i]) U4(sensor_time_tag[i]) }
  return s;
}
#undef U1
#undef U2
#undef U4
#undef I1
#undef I2
#undef I4
#undef UV
inline std::vector<Shape> fixed_shapes() { return {hnr_pvt(), nav_att(), nav_clock(), nav_pvt(), nav_velecef(), nav_status(), mga_gps_eph(), esf_ins()}; }
// decode from an allocation holding exactly these bytes, into a structure of which every byte is preset
struct Object {
  std::unique_ptr<uint8_t[]> m; ubx_rc rc; uint32_t left;
  Object(const Shape &s, const uint8_t *p, size_t n, uint8_t fill = 0xA5) : m(new uint8_t[s.size]) {
    memset(m.get(), fill, s.size);
    std::unique_ptr<uint8_t[]> q(new uint8_t[n ? n : 1]); if (n) memcpy(q.get(), p, n);
    swiftnav_bytestream_t bs; swiftnav_bytestream_init(&bs, q.get(), (uint32_t)n); rc = s.dec(&bs, m.get()); left = swiftnav_bytestream_remaining(&bs);
  }
  const uint8_t *get() const { return m.get(); }
};
inline void checksum(const uint8_t *p, size_t n, uint8_t &a, uint8_t &b) {      // 8-bit Fletcher: sums of the bytes and of the sums
  unsigned sa = 0, sb = 0; for (size_t i = 0; i < n; i++) { sa = (sa + p[i]) % 256; sb = (sb + sa) % 256; } a = (uint8_t)sa; b = (uint8_t)sb;
}
inline Bytes frame(const Bytes &body) {              // body: class, id, length, payload
  Bytes r = {0xB5, 0x62}; r.insert(r.end(), body.begin(), body.end()); uint8_t a, b; checksum(body.data(), body.size(), a, b); r.push_back(a); r.push_back(b); return r;
}
}  // namespace ubxref
