// The u-blox -> SBP converter as a closed box: feed messages or a byte stream, collect what it sends.
#pragma once
#include "emit.hpp"
#include "ubxref.hpp"
extern "C" {
#include <gnss-converters/ubx_sbp.h>
}
namespace ubxpipe {
using mc::Bytes; using mc::fmt; using conv::Emit;
inline std::string show(const Emit &e) {
  std::string s = fmt("[%x from %04x]", e.type, e.sender); const sbp_msg_t &m = e.m;
#define I(x) s += fmt(" " #x "=%lld", (long long)(x));
#define F(x) s += fmt(" " #x "=%.17g", (double)(x));
  switch (e.type) {
    case SbpMsgFwd: { auto &p = m.fwd; I(p.source) I(p.protocol) s += " " + mc::hex(Bytes(p.fwd_payload, p.fwd_payload + p.n_fwd_payload)); break; }
    case SbpMsgPosLlh: { auto &p = m.pos_llh; I(p.tow) F(p.lat) F(p.lon) F(p.height) I(p.h_accuracy) I(p.v_accuracy) I(p.n_sats) I(p.flags) break; }
    case SbpMsgVelEcef: { auto &p = m.vel_ecef; I(p.tow) I(p.x) I(p.y) I(p.z) I(p.accuracy) I(p.n_sats) I(p.flags) break; }
    case SbpMsgOrientEuler: { auto &p = m.orient_euler; I(p.tow) I(p.roll) I(p.pitch) I(p.yaw) F(p.roll_accuracy) F(p.pitch_accuracy) F(p.yaw_accuracy) I(p.flags) break; }
    case SbpMsgImuRaw: { auto &p = m.imu_raw; I(p.tow) I(p.tow_f) I(p.acc_x) I(p.acc_y) I(p.acc_z) I(p.gyr_x) I(p.gyr_y) I(p.gyr_z) break; }
    case SbpMsgImuAux: { auto &p = m.imu_aux; I(p.imu_type) I(p.temp) I(p.imu_conf) break; }
    case SbpMsgOdometry: { auto &p = m.odometry; I(p.tow) I(p.velocity) I(p.flags) break; }
    case SbpMsgWheeltick: { auto &p = m.wheeltick; I(p.time) I(p.flags) I(p.source) I(p.ticks) break; }
    case SbpMsgGnssTimeOffset: { auto &p = m.gnss_time_offset; I(p.weeks) I(p.milliseconds) I(p.microseconds) I(p.flags) break; }
    case SbpMsgSvAzEl: { auto &p = m.sv_az_el; for (int i = 0; i < p.n_azel && i < 63; i++) s += fmt(" %d/%d:%d,%d", p.azel[i].sid.sat, p.azel[i].sid.code, p.azel[i].az, p.azel[i].el); break; }
    case SbpMsgMeasurementState: { auto &p = m.measurement_state; for (int i = 0; i < p.n_states && i < 85; i++) s += fmt(" %d/%d:%d", p.states[i].mesid.sat, p.states[i].mesid.code, p.states[i].cn0); break; }
    default: return conv::show(e);
  }
#undef I
#undef F
  return s;
}
struct U {
  std::unique_ptr<uint8_t[]> mem; std::vector<Emit> out; Bytes in; size_t pos = 0; std::vector<size_t> split; size_t nsplit = 0; long reads = 0, fail_at = -1; int fail_with = -1;
  ubx_sbp_state *st() { return (ubx_sbp_state *)mem.get(); }
  U(uint8_t fill = 0xA5) { if (pool().empty()) mem.reset(new uint8_t[sizeof(ubx_sbp_state)]); else { mem = std::move(pool().back()); pool().pop_back(); } memset(mem.get(), fill, sizeof(ubx_sbp_state)); ubx_sbp_init(st(), &U::cb, this); }
  U(const U &) = delete;
  ~U() { pool().push_back(std::move(mem)); }
  static std::vector<std::unique_ptr<uint8_t[]>> &pool() { static std::vector<std::unique_ptr<uint8_t[]>> p; return p; }
  static void cb(uint16_t sender, sbp_msg_type_t t, const sbp_msg_t *m, void *ctx) { Emit e; e.sender = sender; e.type = (int)t; e.m = *m; ((U *)ctx)->out.push_back(e); }
  static int rd(uint8_t *b, size_t n, void *ctx) {
    U *r = (U *)ctx; if (r->reads++ == r->fail_at) return r->fail_with;
    size_t k = r->in.size() - r->pos; if (r->nsplit < r->split.size()) { size_t w = r->split[r->nsplit++]; if (w && w < k) k = w; }
    if (k > n) k = n; if (k) memcpy(b, &r->in[r->pos], k); r->pos += k; return (int)k;
  }
  // one message (class, id, length, payload), in an allocation of exactly its size
  void body(const Bytes &b) { std::unique_ptr<uint8_t[]> q(new uint8_t[b.size() ? b.size() : 1]); if (b.size()) memcpy(q.get(), b.data(), b.size()); swiftnav_bytestream_t bs; swiftnav_bytestream_init(&bs, q.get(), (uint32_t)b.size()); ubx_handle_frame(&bs, st()); }
  // a stream, read in the given pieces (the rest at once); true when the converter reported its end
  bool stream(const Bytes &b, const std::vector<size_t> &sp = {}) { in = b; pos = 0; split = sp; nsplit = 0; reads = 0; for (long k = 0; k < (long)b.size() + 8; k++) if (ubx_sbp_process(st(), &U::rd) < 0) return true; return false; }
  std::vector<std::string> shown() const { std::vector<std::string> v; for (auto &e : out) v.push_back(ubxpipe::show(e)); return v; }
  std::vector<Emit> take() { std::vector<Emit> v; v.swap(out); return v; }
};
}  // namespace ubxpipe
