// Multi-signal messages built bit by bit from the standard's tables
#pragma once
#include "mc.hpp"
namespace msmref {
using mc::Bytes; using mc::BitW;
enum { GPS = 0, SBAS = 1, GLO = 2, BDS = 3, QZS = 4, GAL = 5 };
inline int base(int cons) { static const int B[] = {1070, 1100, 1080, 1120, 1110, 1090}; return B[cons]; }
inline int kind(int num) { for (int c = 0; c < 6; c++) if (num > base(c) && num <= base(c) + 7) return num - base(c); return 0; }
// -1: none; -2: not asserted
inline int cons_of_number(int n) {
  for (int c = 0; c < 6; c++) if (n > base(c) && n <= base(c) + 7) return c;
  struct R { int a, b, c; };
  static const R T[] = {{1057, 1062, GPS}, {1063, 1068, GLO}, {1240, 1245, GAL}, {1246, 1251, QZS}, {1252, 1257, -2}, {1258, 1263, BDS},
                        {1264, 1264, -2}, {1265, 1265, GPS}, {1266, 1266, GLO}, {1267, 1267, GAL}, {1268, 1268, QZS}, {1269, 1269, SBAS}, {1270, 1270, BDS}};
  for (const R &r : T) if (n >= r.a && n <= r.b) return r.c;
  return -1;
}
struct Sat { uint32_t ms = 70, mod = 0, info = 0; int32_t rate = 0; };
struct Sig { int64_t pr = 0, cp = 0; uint32_t lock = 0, hca = 0, cnr = 0; int32_t rate = 0; };
// field widths of one kind
struct W { int pr, cp, lock, cnr, rate; bool ext; };
inline W widths(int k) {
  switch (k) {
    case 4: return {15, 22, 4, 6, 0, false};
    case 5: return {15, 22, 4, 6, 15, true};
    case 6: return {20, 24, 10, 10, 0, false};
    default: return {20, 24, 10, 10, 15, true};
  }
}
struct Msg {
  int cons = GPS, kind = 7, num = 0;
  uint32_t stn = 0x5A5, epoch = 123456000, mult = 0, iods = 3, res7 = 0x2B, steer = 1, ext = 2, df = 1, smooth = 5;
  uint64_t sat_mask = 0; uint32_t sig_mask = 0;
  std::vector<bool> cells; std::vector<Sat> sats; std::vector<Sig> sigs;
  int nsat() const { return __builtin_popcountll(sat_mask); }
  int nsig() const { return __builtin_popcount(sig_mask); }
  int ncell() const { int n = 0; for (bool b : cells) n += b; return n; }
  void all_cells() { cells.assign((size_t)(nsat() * nsig()), true); }
  // distinct, ordinary values everywhere
  void fill(uint32_t seed) {
    W w = widths(kind); sats.clear(); sigs.clear(); uint64_t h = seed;
    if (cons == GLO) epoch = 2u << 27 | 12345000u;
    for (int i = 0; i < nsat(); i++) {
      Sat s; h = mc::mix(h, 11 + (uint64_t)i); s.ms = 60 + h % 40; s.mod = (h >> 8) % 1024; s.info = cons == GLO ? (h >> 20) % 14 : 0; s.rate = (int32_t)((h >> 30) % 2001) - 1000;
      sats.push_back(s);
    }
    for (int i = 0; i < ncell(); i++) {
      Sig g; h = mc::mix(h, 77 + (uint64_t)i);
      g.pr = (int64_t)(h % (1ull << (w.pr - 1))) - (1ll << (w.pr - 2)); h = mc::mix(h, 1);
      g.cp = (int64_t)(h % (1ull << (w.cp - 1))) - (1ll << (w.cp - 2)); h = mc::mix(h, 2);
      g.lock = h % (w.lock == 4 ? 16 : 704); g.hca = h >> 20 & 1; g.cnr = 1 + (h >> 24) % ((1u << w.cnr) - 1); g.rate = (int32_t)((h >> 40) % 16000) - 8000;
      sigs.push_back(g);
    }
  }
  BitW bits() const {
    BitW b; W w = widths(kind);
    b.u(12, (uint64_t)(num ? num : base(cons) + kind)); b.u(12, stn); b.u(30, epoch); b.u(1, mult); b.u(3, iods); b.u(7, res7); b.u(2, steer); b.u(2, ext); b.u(1, df); b.u(3, smooth);
    b.u(64, sat_mask); b.u(32, sig_mask); for (bool x : cells) b.u(1, x);
    for (auto &s : sats) b.u(8, s.ms);
    if (w.ext) for (auto &s : sats) b.u(4, s.info);
    for (auto &s : sats) b.u(10, s.mod);
    if (w.ext) for (auto &s : sats) b.s(14, s.rate);
    for (auto &g : sigs) b.s(w.pr, g.pr);
    for (auto &g : sigs) b.s(w.cp, g.cp);
    for (auto &g : sigs) b.u(w.lock, g.lock);
    for (auto &g : sigs) b.u(1, g.hca);
    for (auto &g : sigs) b.u(w.cnr, g.cnr);
    if (w.ext) for (auto &g : sigs) b.s(w.rate, g.rate);
    return b;
  }
  Bytes bytes() const { return bits().b; }
};
// lock time indicators, as tabulated by the standard
inline double lock4(uint32_t i) { return i == 0 ? 0 : 0.032 * (double)(1u << (i - 1)); }
inline double lock10(uint32_t i) {   // seconds
  if (i < 64) return i / 1000.0;
  if (i >= 704) return 67108.864;
  // indicators 64..703 in bands of 32, each band doubling the step
  uint32_t k = (i - 64) / 32; double step = (double)(2ull << k), start = (double)(64ull << k);
  return (start + step * (double)(i - 64 - 32 * k)) / 1000.0;
}
inline double lock7(uint32_t i) {
  if (i < 24) return i;
  if (i < 48) return 24 + 2.0 * (i - 24);
  if (i < 72) return 72 + 4.0 * (i - 48);
  if (i < 96) return 168 + 8.0 * (i - 72);
  if (i < 120) return 360 + 16.0 * (i - 96);
  if (i < 127) return 744 + 32.0 * (i - 120);
  return 937;
}
}  // namespace msmref
