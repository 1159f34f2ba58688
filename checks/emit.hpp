// A message sent by a converter, and its fields in words.
#pragma once
#include "mc.hpp"
#include <cmath>
#include <memory>
#include "shim.h"
namespace conv {
using mc::Bytes; using mc::fmt;
struct Emit { uint16_t sender; int type; sbp_msg_t m; };
// every field of a message, by name; no padding, nothing beyond the announced counts
inline std::string show(const Emit &e) {
  std::string s = fmt("[%x from %04x]", e.type, e.sender); const sbp_msg_t &m = e.m;
#define I(x) s += fmt(" " #x "=%lld", (long long)(x));
#define F(x) s += fmt(" " #x "=%.17g", (double)(x));
#define SID(x) s += fmt(" " #x "=%d/%d", (x).sat, (x).code);
#define SEC(x) s += fmt(" " #x "=%d/%u", (x).wn, (x).tow);
  switch (e.type) {
    case SbpMsgObs: { auto &o = m.obs; s += fmt(" %d/%u/%d #%d/%d n=%d", o.header.t.wn, o.header.t.tow, o.header.t.ns_residual, o.header.n_obs & 15, o.header.n_obs >> 4, o.n_obs);
      for (int i = 0; i < o.n_obs && i < 14; i++) { auto &b = o.obs[i]; s += fmt(" {%d/%d P%u L%d.%d D%d.%d c%d k%d f%02x}", b.sid.sat, b.sid.code, b.P, b.L.i, b.L.f, b.D.i, b.D.f, b.cn0, b.lock, b.flags); } break; }
    case SbpMsgBasePosEcef: { auto &p = m.base_pos_ecef; F(p.x) F(p.y) F(p.z) break; }
    case SbpMsgGloBiases: { auto &g = m.glo_biases; I(g.mask) I(g.l1ca_bias) I(g.l1p_bias) I(g.l2ca_bias) I(g.l2p_bias) break; }
    case SbpMsgLog: { auto &l = m.log; I(l.level) s += " \"" + std::string(l.text.data, l.text.encoded_len) + "\""; break; }
#define COMMON(p) SID(p.common.sid) SEC(p.common.toe) F(p.common.ura) I(p.common.fit_interval) I(p.common.valid) I(p.common.health_bits)
#define KEP(p) F(p.c_rs) F(p.c_rc) F(p.c_uc) F(p.c_us) F(p.c_ic) F(p.c_is) F(p.dn) F(p.m0) F(p.ecc) F(p.sqrta) F(p.omega0) F(p.omegadot) F(p.w) F(p.inc) F(p.inc_dot) F(p.af0) F(p.af1) F(p.af2) SEC(p.toc) I(p.iode) I(p.iodc)
    case SbpMsgEphemerisGps: case SbpMsgEphemerisQzss: { auto &g = m.ephemeris_gps; COMMON(g) F(g.tgd) KEP(g) break; }
    case SbpMsgEphemerisBds: { auto &g = m.ephemeris_bds; COMMON(g) F(g.tgd1) F(g.tgd2) KEP(g) break; }
    case SbpMsgEphemerisGal: { auto &g = m.ephemeris_gal; COMMON(g) F(g.bgd_e1e5a) F(g.bgd_e1e5b) KEP(g) I(g.source) break; }
    case SbpMsgEphemerisGlo: { auto &g = m.ephemeris_glo; COMMON(g) F(g.gamma) F(g.tau) F(g.d_tau) for (int i = 0; i < 3; i++) { F(g.pos[i]) F(g.vel[i]) F(g.acc[i]) } I(g.fcn) I(g.iod) break; }
    case SbpMsgSsrOrbitClock: { auto &o = m.ssr_orbit_clock; SEC(o.time) SID(o.sid) I(o.update_interval) I(o.iod_ssr) I(o.iod) I(o.radial) I(o.along) I(o.cross) I(o.dot_radial) I(o.dot_along) I(o.dot_cross) I(o.c0) I(o.c1) I(o.c2) break; }
    case SbpMsgSsrCodeBiases: { auto &o = m.ssr_code_biases; SEC(o.time) SID(o.sid) I(o.update_interval) I(o.iod_ssr) I(o.n_biases) for (int i = 0; i < o.n_biases && i < 81; i++) s += fmt(" %d:%d", o.biases[i].code, o.biases[i].value); break; }
    case SbpMsgSsrPhaseBiases: { auto &o = m.ssr_phase_biases; SEC(o.time) SID(o.sid) I(o.update_interval) I(o.iod_ssr) I(o.dispersive_bias) I(o.mw_consistency) I(o.yaw) I(o.yaw_rate) I(o.n_biases)
      for (int i = 0; i < o.n_biases && i < 30; i++) s += fmt(" %d:%d/%d/%d/%d", o.biases[i].code, o.biases[i].integer_indicator, o.biases[i].widelane_integer_indicator, o.biases[i].discontinuity_counter, o.biases[i].bias); break; }
    case SbpMsgSbasRaw: { auto &o = m.sbas_raw; SID(o.sid) I(o.tow) I(o.message_type) s += " " + mc::hex(Bytes(o.data, o.data + 27)); break; }
    default: s += " raw " + mc::hex(Bytes(m.raw.raw, m.raw.raw + m.raw.n)); break;
  }
#undef I
#undef F
  return s;
}
}
