// Stateless, deviation-bounded explorer of a deterministic harness over real code.
//
// A harness body asks choose(n) (free choice, every alternative explored) or
// dev(n) (alternative 0 is the default answer; any other costs one deviation).
// The explorer enumerates every choice sequence whose deviation count is within
// the scenario's bound.  Executions run in forked workers; a worker that dies
// (sanitizer, assert, signal) or stalls identifies the execution it was in.
// Every violation is replayed alone in a fresh process before it is reported.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Violation { std::string sig, msg; };

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
  return h;
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const uint8_t *b = (const uint8_t *)p;
  while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = mix(h, v); b += 8; n -= 8; }
  uint64_t v = 0; memcpy(&v, b, n); return mix(h, v ^ ((uint64_t)n << 56));
}
inline uint64_t hash_str(const std::string &s) { return hash_bytes(s.data(), s.size()); }

struct Point { uint32_t choice, n; uint32_t is_dev; };
static constexpr size_t MAX_POINTS = 1 << 14;

struct Shared;  // per worker shared page

class Ctx {
 public:
  // free choice among n alternatives
  uint32_t choose(uint32_t n, const char *label = nullptr) { return pick(n, 0, label); }
  // deviation choice: 0 is the default answer, others cost one deviation
  uint32_t dev(uint32_t n, const char *label = nullptr) { return pick(n, 1, label); }
  void fail(const std::string &sig, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
  void check(bool ok, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  // tells what is running, so that a crash can be identified
  void at(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void step(uint64_t n = 1) { transitions += n; }
  void state(uint64_t h) { obs = mix(obs, h); states.insert(h); }
  void traced(uint64_t n = 1) { traces += n; }
  bool thorough = false;
  bool logging = false;
  bool probing = false;          // only the shape of the choice tree is wanted
  // no choice follows: spares the probe the rest of a long body
  void leaf() { if (probing) throw Violation{"probe", ""}; }
  int deviations() const { return cost_; }
  int bound() const { return bound_; }

  // explorer side
  uint64_t transitions = 0, traces = 0, obs = 0;
  std::unordered_set<uint64_t> states;
  std::string log;
  std::vector<Point> points;
  std::vector<uint32_t> prefix;
  int cost_ = 0, bound_ = 0;
  Shared *sh = nullptr;
  const std::vector<std::string> *known = nullptr;  // signatures of known findings
  std::vector<std::string> known_hit;
 private:
  uint32_t pick(uint32_t n, uint32_t is_dev, const char *label);
};

struct Scenario {
  const char *name;
  std::function<void(Ctx &)> body;
  int bound_quick = 1, bound_thorough = 2;   // deviation bounds
  bool thorough_only = false;
};

struct Spec {
  const char *property;
  const char *rule;                       // what is enumerated, in words
  std::vector<std::string> assumptions;
  std::vector<Scenario> scenarios;
};

int run(int argc, char **argv, const Spec &spec);

// like Ctx::check, but the message is only built on failure
#define CHK(c, cond, ...) do { if (!(cond)) (c).check(false, __VA_ARGS__); } while (0)

// ---- small helpers for harnesses -------------------------------------------
using Bytes = std::vector<uint8_t>;
inline void append(Bytes &a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); }
inline std::string hex(const uint8_t *p, size_t n) {
  std::string s; char t[4];
  for (size_t i = 0; i < n; i++) { snprintf(t, sizeof t, "%02x", p[i]); s += t; }
  return s;
}
inline std::string hex(const Bytes &b) { return hex(b.data(), b.size()); }
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
  char buf[2048]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap); return buf;
}
// MSB-first bit writer
struct BitW {
  Bytes b; size_t n = 0;
  void u(int bits, uint64_t v) {
    for (int i = bits - 1; i >= 0; i--) {
      if (n % 8 == 0) b.push_back(0);
      if ((v >> i) & 1) b[n / 8] |= (uint8_t)(0x80 >> (n % 8));
      n++;
    }
  }
  void s(int bits, int64_t v) { u(bits, (uint64_t)v); }
  void sm(int bits, int64_t v) { u(1, v < 0); u(bits - 1, (uint64_t)(v < 0 ? -v : v)); }
};
inline uint32_t ref_crc24q(const uint8_t *p, size_t n) {   // bitwise, from the polynomial
  uint32_t c = 0;
  for (size_t i = 0; i < n; i++) {
    c ^= (uint32_t)p[i] << 16;
    for (int k = 0; k < 8; k++) { c <<= 1; if (c & 0x1000000) c ^= 0x1864CFB; }
  }
  return c & 0xFFFFFF;
}
inline uint32_t ref_crc32_novatel(const uint8_t *p, size_t n) {
  uint32_t c = 0;
  for (size_t i = 0; i < n; i++) {
    c ^= p[i];
    for (int k = 0; k < 8; k++) c = (c & 1) ? (c >> 1) ^ 0xEDB88320u : c >> 1;
  }
  return c;
}
inline Bytes rtcm_frame(const Bytes &payload) {
  Bytes f = {0xD3, (uint8_t)((payload.size() >> 8) & 3), (uint8_t)payload.size()};
  append(f, payload);
  uint32_t c = ref_crc24q(f.data(), f.size());
  f.push_back(c >> 16); f.push_back(c >> 8); f.push_back(c);
  return f;
}
// change the bytes m[off..off+n) so that the check value f(m), affine over GF(2), equals want in the bits of mask
inline bool forge(Bytes &m, size_t off, size_t n, const std::function<uint64_t(const Bytes &)> &f, uint64_t want, uint64_t mask) {
  for (size_t i = 0; i < n; i++) m[off + i] = 0;
  uint64_t base = f(m), need = (base ^ want) & mask; std::vector<std::pair<uint64_t, uint64_t>> rows; uint64_t sel = 0;   // effect, bits used (n <= 8)
  for (size_t b = 0; b < 8 * n; b++) {
    m[off + b / 8] ^= (uint8_t)(1 << (b % 8)); uint64_t e = (f(m) ^ base) & mask; m[off + b / 8] ^= (uint8_t)(1 << (b % 8));
    uint64_t u = 1ull << b;
    for (auto &r : rows) if (e & (r.first & -r.first)) { e ^= r.first; u ^= r.second; }
    if (!e) continue;
    uint64_t low = e & -e;
    for (auto &r : rows) if (r.first & low) { r.first ^= e; r.second ^= u; }
    rows.push_back({e, u});
  }
  for (auto &r : rows) if (need & (r.first & -r.first)) { need ^= r.first; sel ^= r.second; }
  for (size_t b = 0; b < 8 * n; b++) if (sel >> b & 1) m[off + b / 8] ^= (uint8_t)(1 << (b % 8));
  return ((f(m) ^ want) & mask) == 0;
}
}  // namespace mc
