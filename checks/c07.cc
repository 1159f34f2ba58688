// C07: multi-signal messages, field by field and mask by mask
#include "rtcmfields.hpp"
using namespace mc; using namespace rtcmref;
// every small mask geometry: which satellites, signals and cells the data belong to
static void geometry(Ctx &c) {
  int cons = (int)c.choose(6, "constellation"), kind = 4 + (int)c.choose(4, "kind"); uint32_t a = c.choose(c.thorough ? 2080 : 130, "sats");
  static const uint32_t GS[] = {1u << 31, 1, 1u << 30 | 1u << 2, 0xE0000000u, 0x80018001u, 0x7FF00000u}; uint32_t gm = GS[c.choose(6, "signals")];
  // one or two satellites anywhere (thorough: every pair), then blocks
  uint64_t sm; if (a < 64) sm = 1ull << a; else { uint32_t k = a - 64; if (c.thorough) { uint32_t i = 0; while (k >= 63 - i) { k -= 63 - i; i++; } sm = 1ull << i | 1ull << (i + 1 + k); } else sm = k < 64 ? (1ull << k | 1ull << ((k * 29 + 7) % 64)) : k == 64 ? 0xF8ull << 30 : 0x1111111100000000ull; }
  if (__builtin_popcountll(sm) * __builtin_popcount(gm) > 64) return;
  for (int cp = 0; cp < 4; cp++) { Shape s = msm(msm_msg(cons, kind, sm, gm, cp), fmt("MSM%d", kind)); judge(c, s, s.defaults(), fmt("constellation %d, satellites %016llx, signals %08x, cells %d", cons, (unsigned long long)sm, gm, cp).c_str()); }
}
// every cell mask of up to 3 x 4 (thorough 4 x 4) cells
static void cells(Ctx &c) {
  int kind = 4 + (int)c.choose(4, "kind"); int ng = 1 + (int)c.choose(4, "signals"), ns = 1 + (int)c.choose(c.thorough ? 4 : 3, "sats"), cons = (int)c.choose(2, "glo") ? 2 : 5; int n = ng * ns;
  for (uint32_t m = 0; m < 1u << n; m++) {
    msmref::Msg q; q.cons = cons; q.kind = kind; q.sat_mask = ((1ull << ns) - 1) << 50; q.sig_mask = (ng == 1 ? 4u : ng == 2 ? 0x41u : ng == 3 ? 0x111u : 0x8421u) << 8;
    for (int i = 0; i < n; i++) q.cells.push_back(m >> i & 1);
    q.fill(m); Shape s = msm(q, fmt("MSM%d", kind)); judge(c, s, s.defaults(), fmt("cell mask %x of %d x %d", m, ns, ng).c_str());
  }
}
// more cells than the format allows are refused whatever the rest says
static void too_many(Ctx &c) {
  int cons = (int)c.choose(6, "constellation"), kind = 4 + (int)c.choose(4, "kind"); int ns = 1 + (int)c.choose(64, "sats"), ng = 1 + (int)c.choose(32, "signals"); int n = ns * ng; if (n <= 64) return;
  int fillp = (int)c.choose(3, "rest");
  msmref::Msg q; q.cons = cons; q.kind = kind; q.sat_mask = ns == 64 ? ~0ull : ((1ull << ns) - 1) << (64 - ns); q.sig_mask = ng == 32 ? ~0u : ((1u << ng) - 1) << (32 - ng); if (cons == 2) q.epoch = 12345000u;
  BitW b = q.bits(); while (b.b.size() < 1023) b.u(8, fillp == 0 ? 0 : fillp == 1 ? 0xFF : 0x5A); 
  std::unique_ptr<rtcm_msm_message> m(new rtcm_msm_message); c.at("MSM%d with %d x %d", kind, ns, ng); c.step(); c.traced();
  rtcm3_rc rc = with_exact(b.b.data(), b.b.size(), b.b.size() * 8, [&](swiftnav_bitstream_t *bs) { return kind == 4 ? rtcm3_decode_msm4_bitstream(bs, m.get()) : kind == 5 ? rtcm3_decode_msm5_bitstream(bs, m.get()) : kind == 6 ? rtcm3_decode_msm6_bitstream(bs, m.get()) : rtcm3_decode_msm7_bitstream(bs, m.get()); });
  CHK(c, rc != RC_OK, "MSM%d with %d satellites and %d signals is accepted", kind, ns, ng); c.state(mix((uint64_t)n, (uint64_t)rc));
}
int main(int argc, char **argv) {
  bool th = false; for (int i = 1; i < argc; i++) th |= !strcmp(argv[i], "--thorough"); prepare(msm_shapes(th));
  Spec s; s.property = "C07";
  s.rule = "MSM4..7 of six constellations: four (six thorough) mask geometries x every field x backgrounds x values; every single satellite and pairs of satellites x six signal masks x four cell patterns; every cell mask of up to 3x4 (4x4 thorough) cells; every satellite x signal count beyond 64 cells";
  s.assumptions = {"fields wider than 10 bits (14 thorough) take boundary and walking-bit values"};
  s.scenarios = {{"fields", each_field}, {"geometry", geometry}, {"cells", cells}, {"too_many", too_many}};
  return run(argc, argv, s);
}
