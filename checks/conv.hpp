// The RTCM -> SBP converter as a closed box: feed messages or a byte stream, collect what it sends.
#pragma once
#include "mc.hpp"
#include <cmath>
#include <memory>
extern "C" {
#include <gnss-converters/options.h>
#include <gnss-converters/rtcm3_sbp.h>
#include <gnss-converters/time_truth.h>
}
#include "emit.hpp"
namespace conv {
using mc::Bytes; using mc::fmt;
inline void all_constellations() { for (int i = 0; i < CONSTELLATION_COUNT; i++) constellation_mask[i] = false; memset(sbp_signal_biases, 0, sizeof(float) * CODE_COUNT); for (int i = 0; i < 2; i++) sbp_glo_code_bias[i] = sbp_glo_phase_bias[i] = 0; }
struct R2S {
  std::unique_ptr<uint8_t[]> mem; time_truth_t tt; std::vector<Emit> out; std::vector<double> stale;
  Bytes in; size_t pos = 0; std::vector<size_t> split; size_t nsplit = 0; long reads = 0;
  rtcm3_sbp_state *st() { return (rtcm3_sbp_state *)mem.get(); }
  R2S(uint8_t fill = 0xA5) { if (pool().empty()) mem.reset(new uint8_t[sizeof(rtcm3_sbp_state)]); else { mem = std::move(pool().back()); pool().pop_back(); } memset(mem.get(), fill, sizeof(rtcm3_sbp_state)); memset(&tt, fill, sizeof tt); time_truth_init(&tt); init(); }
  R2S(const R2S &) = delete;
  ~R2S() { pool().push_back(std::move(mem)); }
  static std::vector<std::unique_ptr<uint8_t[]>> &pool() { static std::vector<std::unique_ptr<uint8_t[]>> p; return p; }   // the state is large: allocate it once
  void init() { rtcm2sbp_init(st(), &tt, &R2S::cb, &R2S::bad, this); }
  static void cb(uint16_t sender, sbp_msg_type_t t, const sbp_msg_t *m, void *ctx) { Emit e; e.sender = sender; e.type = (int)t; e.m = *m; ((R2S *)ctx)->out.push_back(e); }
  static void bad(double d, void *ctx) { ((R2S *)ctx)->stale.push_back(d); }
  static int rd(uint8_t *b, size_t n, void *ctx) {
    R2S *r = (R2S *)ctx; r->reads++; size_t k = r->in.size() - r->pos; if (r->nsplit < r->split.size()) { size_t w = r->split[r->nsplit++]; if (w < k) k = w; }
    if (k > n) k = n; if (k) memcpy(b, &r->in[r->pos], k); r->pos += k; return (int)k;
  }
  bool know(int wn, double tow) { gps_time_t t; t.wn = (int16_t)wn; t.tow = tow; return time_truth_update(&tt, TIME_TRUTH_EPH_GAL, t); }
  // one message, in an allocation of exactly its size
  void payload(const Bytes &b) { std::unique_ptr<uint8_t[]> q(new uint8_t[b.size() ? b.size() : 1]); if (b.size()) memcpy(q.get(), b.data(), b.size()); rtcm2sbp_decode_payload(q.get(), (uint32_t)b.size(), st()); }
  void frame(const Bytes &b) { std::unique_ptr<uint8_t[]> q(new uint8_t[b.size() ? b.size() : 1]); if (b.size()) memcpy(q.get(), b.data(), b.size()); rtcm2sbp_decode_frame(q.get(), (uint32_t)b.size(), st()); }
  // a stream, read in the given pieces (the rest at once); returns the number of reads
  long stream(const Bytes &b, const std::vector<size_t> &sp = {}) { in = b; pos = 0; split = sp; nsplit = 0; reads = 0; for (long k = 0; k < (long)b.size() + 8; k++) if (rtcm2sbp_process(st(), &R2S::rd) <= 0) return reads; return -1; }
  std::vector<std::string> shown() const { std::vector<std::string> v; for (auto &e : out) v.push_back(show(e)); return v; }
  std::vector<Emit> take() { std::vector<Emit> v; v.swap(out); return v; }
};
inline uint16_t sender(int stn) { return (uint16_t)(stn | 0xF080); }
}
