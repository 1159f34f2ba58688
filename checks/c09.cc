// C09: mask counting and ranking, message number classification
#include "mc.hpp"
#include <memory>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" {
#include <rtcm3/msm_utils.h>
#include <rtcm3/decode.h>
}
#include "msmref.hpp"
using namespace mc;
static void judge_mask(Ctx &c, const std::vector<bool> &m) {
  size_t n = m.size(); std::unique_ptr<bool[]> a(new bool[n ? n : 1]); std::vector<int> set;
  for (size_t i = 0; i < n; i++) { a[i] = m[i]; if (m[i]) set.push_back((int)i); }
  std::string txt; for (bool b : m) txt += b ? '1' : '0';
  int cnt = count_mask_values((uint8_t)n, a.get());
  CHK(c, cnt == (int)set.size(), "mask %s has %zu set entries, counted %d", txt.c_str(), set.size(), cnt);
  uint64_t hs = (uint64_t)cnt;
  for (size_t r = 1; r <= set.size(); r++) {
    int p = find_nth_mask_value((uint8_t)n, a.get(), (uint8_t)r);
    CHK(c, p == set[r - 1], "entry %zu of mask %s is at %d, returned %d", r, txt.c_str(), set[r - 1], p); hs = mix(hs, (uint64_t)p);
  }
  c.step(1 + set.size()); c.traced(); c.state(hs);
}
static void small(Ctx &c) {     // every mask of up to 16 entries
  uint32_t v = c.choose(c.thorough ? 65536 : 16384, "mask"); uint32_t n = c.choose(c.thorough ? 17 : 15, "size");
  if (n < 32 && v >> n) return;
  std::vector<bool> m; for (uint32_t i = 0; i < n; i++) m.push_back(v >> i & 1); judge_mask(c, m);
}
static void large(Ctx &c) {     // sizes used by the messages: every mask with up to 3 entries flipped from none or from all, and every run
  static const int SZ[] = {32, 64, 24, 33, 63, 255, 96};
  int n = SZ[c.choose(7, "size")]; bool inv = c.choose(2, "all set"); uint32_t kind = c.choose(3, "kind"); std::vector<bool> m(n, inv);
  int i = (int)c.choose((uint32_t)n, "i"), j = (int)c.choose((uint32_t)n, "j"); if (j < i) return;
  if (kind == 0) { m[i] = !inv; m[j] = !inv; judge_mask(c, m); }
  else if (kind == 1) { for (int k = i; k <= j; k++) m[k] = !inv; judge_mask(c, m); }
  else { for (int k = j; k < n; k += c.thorough || n <= 32 ? 1 : 7) { std::vector<bool> q = m; q[i] = !inv; q[j] = !inv; q[k] = !inv; judge_mask(c, q); } }
}
static bool refuses(const std::vector<bool> &m, int n) {   // the library refuses by assertion: run it apart
  fflush(nullptr); pid_t p = fork();
  if (p == 0) {
    for (int s : {SIGABRT, SIGSEGV, SIGTRAP, SIGILL}) signal(s, SIG_DFL);
    int z = open("/dev/null", 1); dup2(z, 2); dup2(z, 1);
    std::unique_ptr<bool[]> a(new bool[m.size()]); for (size_t i = 0; i < m.size(); i++) a[i] = m[i];
    (void)find_nth_mask_value((uint8_t)m.size(), a.get(), (uint8_t)n); _exit(0);
  }
  int st = 0; waitpid(p, &st, 0); return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
static void beyond(Ctx &c) {
  uint32_t n = c.choose(7, "size"), v = c.choose(64, "mask"); if (v >> n) return;
  std::vector<bool> m; int cnt = 0; for (uint32_t i = 0; i < n; i++) { m.push_back(v >> i & 1); cnt += v >> i & 1; }
  int r = (int)c.choose(3, "rank"); int rank = r == 0 ? 0 : r == 1 ? cnt + 1 : 255;
  CHK(c, refuses(m, rank), "rank %d of a mask with %d set entries is answered", rank, cnt); c.step(); c.state(mix(v, (uint64_t)rank));
}
static void numbers(Ctx &c) {   // every 16-bit message number
  uint32_t hi = c.choose(256, "high byte");
  for (uint32_t lo = 0; lo < 256; lo++) {
    int num = (int)(hi << 8 | lo); int k = msmref::kind(num), cons = msmref::cons_of_number(num);
    msm_enum t = to_msm_type((uint16_t)num); rtcm_constellation_t g = to_constellation((uint16_t)num);
    static const msm_enum K[] = {MSM_UNKNOWN, MSM1, MSM2, MSM3, MSM4, MSM5, MSM6, MSM7};
    CHK(c, t == K[k], "message %d is multi-signal kind %d, returned %d", num, k, (int)t);
    CHK(c, cons == -2 || (int)g == cons, "message %d belongs to constellation %d, returned %d", num, cons, (int)g); c.step(); c.traced();
    c.state(mix((uint64_t)t, (uint64_t)g));
  }
}
// counts inside decoded headers: satellites, signals and cells of every header shape
static void headers(Ctx &c) {
  static const uint64_t SM[] = {0, 1ull << 63, 1, 1ull << 63 | 1, 0x00F0000000000000ull, 0x8000000100000001ull, 0xAAAA000000000000ull, 0xFFFF000000000000ull};
  static const uint32_t GM[] = {0, 0x80000000u, 1, 0x80000001u, 0x42000000u, 0x55000000u, 0x7E000000u, 0xFF000000u};
  int ci = (int)c.choose(6, "constellation"); uint64_t sm = SM[c.choose(8, "sats")]; uint32_t gm = GM[c.choose(8, "signals")]; uint32_t cp = c.choose(6, "cells");
  int kind = 4 + (int)c.choose(4, "kind"); msmref::Msg m; m.cons = ci; m.kind = kind; m.sat_mask = sm; m.sig_mask = gm;
  size_t ns = (size_t)__builtin_popcountll(sm), ng = (size_t)__builtin_popcount(gm); if (ns * ng > 64) return;
  for (size_t i = 0; i < ns * ng; i++) m.cells.push_back(cp == 0 ? false : cp == 1 ? true : cp == 2 ? i % 2 : cp == 3 ? i == 0 : cp == 4 ? i + 1 == ns * ng : (i * 5 / 3) % 3 == 0);
  size_t nc = 0; for (bool b : m.cells) nc += b;
  m.fill(1); Bytes b = m.bytes(); swiftnav_bitstream_t bs; swiftnav_bitstream_init(&bs, b.data(), (uint32_t)b.size() * 8);
  static rtcm_msm_message out; memset(&out, 0xEE, sizeof out);
  rtcm3_rc rc = kind == 4 ? rtcm3_decode_msm4_bitstream(&bs, &out) : kind == 5 ? rtcm3_decode_msm5_bitstream(&bs, &out) : kind == 6 ? rtcm3_decode_msm6_bitstream(&bs, &out) : rtcm3_decode_msm7_bitstream(&bs, &out);
  CHK(c, rc == RC_OK, "a complete MSM%d of constellation %d with %zu satellites and %zu signals is refused (%d)", kind, ci, ns, ng, (int)rc);
  if (rc != RC_OK) return;
  CHK(c, count_mask_values(MSM_SATELLITE_MASK_SIZE, out.header.satellite_mask) == ns, "satellite mask of the decoded header");
  CHK(c, count_mask_values(MSM_SIGNAL_MASK_SIZE, out.header.signal_mask) == ng, "signal mask of the decoded header");
  CHK(c, count_mask_values((uint8_t)(ns * ng), out.header.cell_mask) == nc, "cell mask of the decoded header: %d cells instead of %zu", count_mask_values((uint8_t)(ns * ng), out.header.cell_mask), nc);
  c.step(); c.traced(); c.state(mix(mix(ns, ng), nc));
}
int main(int argc, char **argv) {
  Spec s; s.property = "C09";
  s.rule = "every mask of 0..14 entries (0..16 thorough) with every rank; masks of 24..255 entries with up to three entries differing and every run; ranks 0, count+1 and 255; every 16-bit message number; decoded headers over 6 constellations x 4 kinds x satellite, signal and cell masks";
  s.assumptions = {"refusal of a rank that does not exist is the library's assertion, observed in a child process"};
  s.scenarios = {{"small", small}, {"large", large}, {"beyond", beyond}, {"numbers", numbers}, {"headers", headers}};
  return run(argc, argv, s);
}
