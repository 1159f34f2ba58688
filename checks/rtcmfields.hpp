// every field of a set of message shapes over its values, against every reported quantity
#pragma once
#include "rtcmref.hpp"
namespace rtcmref {
inline std::vector<uint64_t> patterns(const Field &x, int full) {
  std::vector<uint64_t> v; int w = x.w; uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1;
  if (w <= full) { for (uint64_t i = 0; i <= m; i++) v.push_back(i); return v; }
  for (int i = 0; i < w; i++) { v.push_back(1ull << i); v.push_back(m & ~(1ull << i)); v.push_back((1ull << i) - 1); v.push_back(m & ~((1ull << i) - 1)); }
  for (uint64_t d = 0; d < 3; d++) { v.push_back(d); v.push_back(m - d); v.push_back(((m >> 1) + 1 + d) & m); v.push_back(((m >> 1) - d) & m); }
  for (uint64_t p : {0x5555555555555555ull, 0xAAAAAAAAAAAAAAAAull, 0x0123456789ABCDEFull, 0xFEDCBA9876543210ull, 0x80000ull}) v.push_back(p & m);
  if (w == 27) for (uint64_t t : {86399999ull, 86400000ull, 86400001ull}) v.push_back(t);
  if (w == 30) for (uint64_t t : {604799999ull, 604800000ull, 604800001ull, (1ull << 30) - 14000, (1ull << 30) - 14001, (1ull << 30) - 1, (1ull << 30) - 999}) v.push_back(t);
  return v;
}
inline Raw background(const Shape &s, uint32_t bg) {
  Raw r = s.defaults(); if (bg == 0) return r;
  for (size_t i = 0; i < s.f.size(); i++) {
    if (s.f[i].fixed) continue;
    int64_t old = r[i]; r[i] = Shape::trim(s.f[i], bg == 1 ? 0 : bg == 2 ? ~0ull : bg == 3 ? 0x5555555555555555ull : mc::mix(bg, i));
    if (s.ok && !s.ok(r)) r[i] = old;
  }
  return r;
}
inline bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol + 1e-15 * std::fabs(b); }
// decodes one payload into memory holding exactly the result, compares everything
inline void judge(mc::Ctx &c, const Shape &s, const Raw &r, const char *what) {
  std::unique_ptr<uint8_t[]> mem(new uint8_t[s.size]); memset(mem.get(), 0xB7, s.size);
  Bytes b = s.bytes(r); c.step(); c.traced(); c.at("decode %s", s.name.c_str());
  rtcm3_rc rc = decode(s, b, mem.get());
  if (s.ok && !s.ok(r)) { CHK(c, rc != RC_OK, "%s with %s outside what the standard allows is accepted", s.name.c_str(), what); c.state(1); return; }
  CHK(c, rc == RC_OK, "%s with %s is refused (%d): %s", s.name.c_str(), what, (int)rc, mc::hex(b).c_str());
  if (rc != RC_OK) return;
  uint64_t h = 7;
  for (auto &o : s.o) {
    if (o.when && !o.when(r)) continue;
    double g = o.get(mem.get()), w = o.want(r);
    if (!near(g, w, o.tol)) { c.check(false, "%s with %s: %s is %.12g, the message says %.12g (%s)", s.name.c_str(), what, o.name.c_str(), g, w, mc::hex(b).c_str()); return; }
    h = mc::mix(h, (uint64_t)(int64_t)std::floor(g * 64));
  }
  c.state(h);
}
static std::vector<Shape> SH;
static size_t MAXF = 0;
static void prepare(std::vector<Shape> v) { SH = std::move(v); for (auto &s : SH) MAXF = std::max(MAXF, s.f.size()); }
static void each_field(mc::Ctx &c) {
  uint32_t si = c.choose((uint32_t)SH.size(), "shape"); const Shape &s = SH[si];
  uint32_t fi = c.choose((uint32_t)s.f.size(), "field"); const Field &x = s.f[fi]; if (x.fixed) return;
  uint32_t bg = c.choose(c.thorough ? 8 : 4, "background"); Raw r = background(s, bg); int64_t keep = r[fi];
  bool big = s.f.size() > 120;
  for (uint64_t p : patterns(x, c.thorough ? 14 : big ? 8 : 10)) { r[fi] = Shape::trim(x, p); judge(c, s, r, mc::fmt("%s = %lld", x.name.c_str(), (long long)r[fi]).c_str()); if (big && bg > 1 && !c.thorough && p > 4) break; }
  r[fi] = keep;
}
// two fields at once, each at its extremes
static void pairs(mc::Ctx &c) {
  uint32_t si = c.choose((uint32_t)SH.size(), "shape"); const Shape &s = SH[si]; if (!c.thorough && s.f.size() > 70) return;
  uint32_t fi = c.choose((uint32_t)s.f.size(), "field"); if (s.f[fi].fixed) return;
  Raw base = background(s, c.choose(2, "background"));
  for (size_t fj = fi + 1; fj < s.f.size(); fj++) {
    if (s.f[fj].fixed) continue;
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) {
      auto ex = [](const Field &x, int k) { uint64_t top = 1ull << (x.w - 1); return Shape::trim(x, k == 0 ? 0 : k == 1 ? ~0ull : k == 2 ? top : top - 1); };
      Raw r = base; r[fi] = ex(s.f[fi], a); r[fj] = ex(s.f[fj], b);
      judge(c, s, r, mc::fmt("%s = %lld and %s = %lld", s.f[fi].name.c_str(), (long long)r[fi], s.f[fj].name.c_str(), (long long)r[fj]).c_str());
    }
  }
}
}  // namespace rtcmref
