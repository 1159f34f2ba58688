#pragma once
#include "mc.hpp"
namespace sbpo {
using mc::Bytes;
struct Msg { uint16_t type, sender; Bytes p; };
inline uint16_t crc16(const uint8_t *p, size_t n) { uint16_t c = 0; for (size_t i = 0; i < n; i++) { c ^= (uint16_t)(p[i] << 8); for (int k = 0; k < 8; k++) c = (uint16_t)(c & 0x8000 ? (c << 1) ^ 0x1021 : c << 1); } return c; }
// strict: the whole output must be a sequence of well formed SBP frames
inline bool split(const Bytes &b, std::vector<Msg> &v, std::string &err) {
  size_t p = 0;
  while (p < b.size()) {
    if (b[p] != 0x55 || p + 8 > b.size()) { err = mc::fmt("byte %zu of the output is no SBP frame", p); return false; }
    size_t n = b[p + 5]; if (p + 8 + n > b.size()) { err = "truncated SBP frame"; return false; }
    if (crc16(&b[p + 1], 5 + n) != (b[p + 6 + n] | b[p + 7 + n] << 8)) { err = "SBP frame with a wrong check value"; return false; }
    Msg m; m.type = (uint16_t)(b[p + 1] | b[p + 2] << 8); m.sender = (uint16_t)(b[p + 3] | b[p + 4] << 8); m.p.assign(b.begin() + (long)p + 6, b.begin() + (long)(p + 6 + n)); v.push_back(m); p += 8 + n;
  }
  return true;
}
struct Rd { const Bytes &b; size_t o = 0; Rd(const Bytes &x, size_t off = 0) : b(x), o(off) {}
  uint64_t u(int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v |= (uint64_t)(o + i < b.size() ? b[o + i] : 0) << (8 * i); o += n; return v; }
  int64_t s(int n) { uint64_t v = u(n); if (n < 8 && (v >> (8 * n - 1) & 1)) v |= ~0ull << (8 * n); return (int64_t)v; }
  double d() { uint64_t v = u(8); double x; memcpy(&x, &v, 8); return x; }
  float f() { uint32_t v = (uint32_t)u(4); float x; memcpy(&x, &v, 4); return x; } };
}
