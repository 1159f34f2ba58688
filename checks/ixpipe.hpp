// The iXCOM -> SBP converter as a closed box, and iXCOM messages built from the interface description.
#pragma once
#include <map>
#include "emit.hpp"
extern "C" {
#include <gnss-converters/ixcom_sbp.h>
#include <ixcom/decode.h>
#include <ixcom/encode.h>
}
namespace ix {
using mc::Bytes; using mc::fmt; using conv::Emit;
inline uint16_t crc16(const uint8_t *p, size_t n) { uint32_t c = 0; for (size_t i = 0; i < n; i++) { c ^= (uint32_t)p[i] << 8; for (int k = 0; k < 8; k++) { c <<= 1; if (c & 0x10000) c ^= 0x11021; } } return (uint16_t)c; }
inline void le(Bytes &b, uint64_t v, int n) { for (int i = 0; i < n; i++) b.push_back((uint8_t)(v >> 8 * i)); }
struct Head { int counter = 1, trigger = 2; long len = -1; int week = 2100; uint32_t sec = 1000, usec = 250000; };
// sync, message, counter, trigger, length, week, seconds, microseconds; payload; global status, checksum
inline Bytes message(int id, const Bytes &payload, const Head &h = Head(), int status = 0x8001) {
  Bytes b = {0x7E, (uint8_t)id, (uint8_t)h.counter, (uint8_t)h.trigger}; le(b, (uint64_t)(h.len >= 0 ? h.len : (long)(payload.size() + 20)), 2); le(b, (uint64_t)h.week, 2); le(b, h.sec, 4); le(b, h.usec, 4); mc::append(b, payload); le(b, (uint64_t)status, 2); le(b, crc16(b.data(), b.size()), 2); return b;
}
inline uint32_t fbits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
inline float bitsf(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
inline Bytes imu(const uint32_t v[6], const Head &h = Head()) { Bytes p; for (int i = 0; i < 6; i++) le(p, v[i], 4); return message(0, p, h); }
inline Bytes wheel(uint32_t speed, uint32_t ticks, const Head &h = Head()) { Bytes p; le(p, speed, 4); le(p, ticks, 4); return message(0x16, p, h); }
inline std::string show(const Emit &e) {
  std::string s = fmt("[%x from %04x]", e.type, e.sender); const sbp_msg_t &m = e.m;
  switch (e.type) {
    case SbpMsgImuRaw: { auto &p = m.imu_raw; s += fmt(" tow %u+%d acc %d %d %d gyr %d %d %d", p.tow, p.tow_f, p.acc_x, p.acc_y, p.acc_z, p.gyr_x, p.gyr_y, p.gyr_z); break; }
    case SbpMsgImuAux: { auto &p = m.imu_aux; s += fmt(" type %d temp %d conf %d", p.imu_type, p.temp, p.imu_conf); break; }
    case SbpMsgOdometry: { auto &p = m.odometry; s += fmt(" tow %u velocity %d flags %d", p.tow, p.velocity, p.flags); break; }
    case SbpMsgWheeltick: { auto &p = m.wheeltick; s += fmt(" time %llu flags %d source %d ticks %d", (unsigned long long)p.time, p.flags, p.source, p.ticks); break; }
  }
  return s;
}
struct X {
  std::unique_ptr<uint8_t[]> mem; std::vector<Emit> out; Bytes in; size_t pos = 0; std::vector<size_t> split; size_t nsplit = 0; long reads = 0, fail_at = -1; int fail_with = -1;
  ixcom_sbp_state *st() { return (ixcom_sbp_state *)mem.get(); }
  X(uint8_t fill = 0xA5) { if (pool().empty()) mem.reset(new uint8_t[sizeof(ixcom_sbp_state)]); else { mem = std::move(pool().back()); pool().pop_back(); } memset(mem.get(), fill, sizeof(ixcom_sbp_state)); ixcom_sbp_init(st(), &X::cb, this); }
  X(const X &) = delete;
  ~X() { pool().push_back(std::move(mem)); }
  static std::vector<std::unique_ptr<uint8_t[]>> &pool() { static std::vector<std::unique_ptr<uint8_t[]>> p; return p; }
  static void cb(uint16_t sender, sbp_msg_type_t t, const sbp_msg_t *m, void *ctx) { Emit e; e.sender = sender; e.type = (int)t; e.m = *m; ((X *)ctx)->out.push_back(e); }
  static int rd(uint8_t *b, size_t n, void *ctx) {
    X *r = (X *)ctx; if (r->reads++ == r->fail_at) return r->fail_with;
    size_t k = r->in.size() - r->pos; if (r->nsplit < r->split.size()) { size_t w = r->split[r->nsplit]; if (w > n) { r->split[r->nsplit] -= n; w = n; } else r->nsplit++; if (w && w < k) k = w; }
    if (k > n) k = n; if (k) memcpy(b, &r->in[r->pos], k); r->pos += k; return (int)k;
  }
  // a stream that arrives in the given pieces (the rest at once); true when the converter reported its end
  bool stream(const Bytes &b, const std::vector<size_t> &sp = {}) { in = b; pos = 0; split = sp; nsplit = 0; reads = 0; for (long k = 0; k < (long)b.size() + 8; k++) if (ixcom_sbp_process(st(), &X::rd) <= 0) return true; return false; }
  std::vector<std::string> shown() const { std::vector<std::string> v; for (auto &e : out) v.push_back(ix::show(e)); return v; }
  std::vector<Emit> take() { std::vector<Emit> v; v.swap(out); return v; }
};
}  // namespace ix
