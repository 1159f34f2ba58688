// C35: whole programs: the whole input becomes the whole output, and the program ends
#include "progs.hpp"
#include "conv.hpp"
#include "ixpipe.hpp"
#include "novpipe.hpp"
#include "obsref.hpp"
#include "s2r.hpp"
#include <cerrno>
#include <csetjmp>
#include <fcntl.h>
#include <getopt.h>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace mc;
extern "C" {
typedef int (*Rd)(uint8_t *, size_t, void *); typedef int (*Rd32)(uint8_t *, uint32_t, void *); typedef int (*Wr32)(uint8_t *, uint32_t, void *); typedef int (*Wr16)(uint8_t *, uint16_t, void *);
int rtcm3tosbp_main(int, char **, const char *, Rd, Wr32, void *); int ubx2sbp_main(int, char **, const char *, Rd, Wr32, void *); int ixcom2sbp_main(int, char **, const char *, Rd, Wr32, void *); int sbp2rtcm_main(int, char **, const char *, Rd32, Wr16, void *);
int prog_rtcm3tosbp(int, char **); int prog_ubx2sbp(int, char **); int prog_ixcom2sbp(int, char **); int prog_sbp2rtcm(int, char **);
}
int prog_nov2sbp(int, char **);
// ------------------------------------------------------------------ the operating system, as the programs see it
struct World {
  Bytes in, out; size_t pos = 0; std::function<size_t(long call, size_t most)> piece; long reads = 0, zero = 0, fail_at = -1; int fail_with = 0; bool failed = false;
  ssize_t read(void *b, size_t n) {
    long k = reads++; if (k == fail_at) { failed = true; in.resize(pos); if (fail_with) { errno = fail_with; return -1; } }
    if (failed && fail_with == EIO) { if (++zero > 3000) stop("keeps reading after the input failed"); errno = EIO; return -1; }
    size_t left = in.size() - pos; if (left == 0 || n == 0) { if (++zero > 3000) stop("keeps reading after the end of its input"); return 0; }
    size_t m = left < n ? left : n; if (piece) m = piece(k, m); memcpy(b, &in[pos], m); pos += m; return (ssize_t)m;
  }
  ssize_t write(const void *b, size_t n) { out.insert(out.end(), (const uint8_t *)b, (const uint8_t *)b + n); return (ssize_t)n; }
  jmp_buf over; const char *why = nullptr; int code = 0;
  void stop(const char *w) { why = w; longjmp(over, 2); }
};
static World *W;
extern "C" {
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); void __real_exit(int) __attribute__((noreturn));
ssize_t __wrap_read(int fd, void *b, size_t n) { return W && fd == 0 ? W->read(b, n) : __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return W && fd == 1 ? W->write(b, n) : __real_write(fd, b, n); }
void __wrap_exit(int code) { if (W) { W->code = code; longjmp(W->over, 1); } __real_exit(code); }
}
static ssize_t ck_read(void *, char *b, size_t n) { return W->read(b, n); }
static ssize_t ck_write(void *, const char *b, size_t n) { return W->write(b, n); }
typedef std::vector<std::string> Args;
struct Argv { std::vector<std::unique_ptr<char[]>> own; std::vector<char *> v; Argv(const char *name, const Args &a) { add(name); for (auto &x : a) add(x); v.push_back(nullptr); } void add(const std::string &x) { own.emplace_back(new char[x.size() + 1]); memcpy(own.back().get(), x.c_str(), x.size() + 1); v.push_back(own.back().get()); } int n() const { return (int)v.size() - 1; } };
static Args none;
// ------------------------------------------------------------------ what goes in
static Bytes rtcm_input() {
  Bytes b; auto add = [&](const BitW &w) { append(b, rtcm_frame(w.b)); };
  { BitW w; w.u(12, 1005); w.u(12, 5); w.u(10, 0); w.s(38, 12345678901ll); w.u(2, 0); w.s(38, -2345678901ll); w.u(2, 0); w.s(38, 3456789012ll); add(w); }
  append(b, Bytes{1, 2, 0xD3, 0, 3, 9});
  { BitW w; w.u(12, 1029); w.u(12, 5); w.u(16, 59000); w.u(17, 1); w.u(7, 127); w.u(8, 248); for (int i = 0; i < 248; i++) w.u(8, (uint64_t)('a' + i % 26)); add(w); }
  for (int e = 0; e < 3; e++) { obsref::Leg l; l.num = 1004; l.stn = 5; l.t = (uint32_t)(345601000 + 1000 * e); l.sync = false; for (int id = 1; id <= 20; id++) { obsref::LegSat s; s.id = id; s.pr += 777 * id; s.ph += 11 * id; s.cnr = 100 + id; l.s.push_back(s); } append(b, rtcm_frame(l.bytes())); }
  { BitW w; w.u(12, 4062); w.u(4, 0); w.u(16, 0x0123); w.u(16, 77); w.u(8, 255); for (int i = 0; i < 255; i++) w.u(8, (uint64_t)i); add(w); }
  { BitW w; w.u(12, 1005); w.u(12, 6); w.u(10, 0); w.s(38, 1); w.u(2, 0); w.s(38, 2); w.u(2, 0); w.s(38, 3); add(w); }
  return b;
}
static Bytes ix_input() {
  Bytes b; for (int i = 0; i < 9; i++) { ix::Head h; h.sec = (uint32_t)(1000 + i); uint32_t v[6]; for (int k = 0; k < 6; k++) v[k] = ix::fbits(0.5f * (float)(k + i)); append(b, ix::imu(v, h)); if (i % 3 == 0) append(b, Bytes{0x7E, 9, 0x7F}); append(b, ix::wheel(ix::fbits(3.5f), (uint32_t)(100 + i), h)); if (i == 4) append(b, ix::message(0x55, Bytes(500, 7), h)); }
  return b;
}
static Bytes nov_input() {
  Bytes b = nov::reset_prefix(); nov::Hdr h; h.week = 2100; auto add = [&](uint16_t id, int ms, const Bytes &body) { h.id = id; h.ms = ms; append(b, nov::long_msg(h, body)); };
  add(42, 100000000, Bytes(72)); append(b, Bytes{0xAA, 0x44, 0x12, 0xAA, 0x44}); add(99, 100000000, Bytes(44)); { Bytes r(4 + 24 * 60); r[0] = 60; for (int i = 0; i < 60; i++) { r[4 + 24 * (size_t)i] = 0; r[4 + 24 * (size_t)i + 17] = (uint8_t)(i + 1); } add(140, 100001000, r); } { Bytes imu(40); imu[1] = 58; add(1462, 100001000, imu); add(1462, 100002000, imu); add(1462, 100003000, imu); } add(42, 100004000, Bytes(72)); return b;
}
static Bytes sbp_frame(uint16_t type, uint16_t sender, const Bytes &p) { Bytes f = {(uint8_t)type, (uint8_t)(type >> 8), (uint8_t)sender, (uint8_t)(sender >> 8), (uint8_t)p.size()}; append(f, p); uint16_t k = sbpo::crc16(f.data(), f.size()); f.push_back((uint8_t)k); f.push_back((uint8_t)(k >> 8)); f.insert(f.begin(), 0x55); return f; }
static Bytes sbp_input() {
  Bytes b; Bytes p; for (double d : {1111111.1111, -2222222.2222, 3333333.3333}) { uint64_t u; memcpy(&u, &d, 8); s2r::put(p, u, 8); } append(b, sbp_frame(SBP_MSG_BASE_POS_ECEF, 0x1042, p)); append(b, Bytes{0, 0x54, 3});
  Bytes l = {4}; for (int i = 0; i < 200; i++) l.push_back((uint8_t)('A' + i % 26)); append(b, sbp_frame(SBP_MSG_LOG, 0x1042, l)); append(b, sbp_frame(SBP_MSG_OSR, 0x3044, Bytes(255, 0x3C)));
  std::vector<std::pair<int, int>> all; for (int i = 1; i <= 32; i++) { all.push_back({i, 0}); all.push_back({i, 1}); }
  for (int e = 0; e < 2; e++) for (int m = 0; m < 5; m++) { std::vector<s2r::O> o; for (size_t i = (size_t)m * 14; i < (size_t)m * 14 + 14 && i < all.size(); i++) o.push_back(s2r::make(all[i].first, all[i].second, 2.1e7 + 1e4 * (double)(i % 90))); append(b, sbp_frame(SBP_MSG_OBS, 0x1042, s2r::obs_msg((uint32_t)(200001000 + 1000 * e), 2100, 5, m, o))); }
  append(b, sbp_frame(SBP_MSG_OSR, 0x3045, Bytes(3, 1))); append(b, sbp_frame(SBP_MSG_BASE_POS_ECEF, 0x1042, p)); return b;
}
// ------------------------------------------------------------------ the programs
enum { RTCM, UBX, IX, NOVA, SBP, NPROG };
struct Prog { const char *name; int (*entry)(int, char **); Args opts; Bytes in; size_t frames, longest; };
static Prog &prog(uint32_t k) { static Prog p[NPROG] = {{"rtcm3tosbp", prog_rtcm3tosbp, {"-w", "2100:345600"}, rtcm_input(), 10, 263}, {"ubx2sbp", prog_ubx2sbp, {}, progs::ubx_input(), 6, 263}, {"ixcom2sbp", prog_ixcom2sbp, {}, ix_input(), 20, 70}, {"nov2sbp", prog_nov2sbp, {}, nov_input(), 6, 240}, {"sbp2rtcm", prog_sbp2rtcm, {}, sbp_input(), 7, 400}}; return p[k]; }
static void clean() { conv::all_constellations(); verbosity_level = VERB_NORMAL; progs::install(); optind = 0; }
// the converter itself, its input in memory
static int mrd(uint8_t *b, size_t n, void *) { return (int)W->read(b, n); }
static int mrd32(uint8_t *b, uint32_t n, void *) { return (int)W->read(b, n); }
static int mwr32(uint8_t *b, uint32_t n, void *) { return (int)W->write(b, n); }
static int mwr16(uint8_t *b, uint16_t n, void *) { return (int)W->write(b, n); }
struct Quiet { FILE *e, *o, *i; Quiet() : e(stderr), o(stdout), i(stdin) { static FILE *q = fopen("/dev/null", "w"); stderr = q; } ~Quiet() { stderr = e; stdout = o; stdin = i; } };
// what is left after the messages that bring the NovAtel converter to a known state
static Bytes judged(uint32_t k, const Bytes &out) {
  if (k != NOVA) return out; size_t p = 0; int n = 0; while (p + 8 <= out.size() && n < 2) { if ((out[p + 1] | out[p + 2] << 8) == 0x020A) n++; p += 8u + out[p + 5]; } return n == 2 && p <= out.size() ? Bytes(out.begin() + (long)p, out.end()) : Bytes();
}
static Bytes converted(Ctx &c, uint32_t k, const Bytes &in, const Args &opts) {
  static std::map<std::pair<uint32_t, size_t>, Bytes> memo; bool keep = opts == prog(k).opts && in.size() <= prog(k).in.size(); if (keep) { auto it = memo.find({k, in.size()}); if (it != memo.end()) return it->second; }
  World w; w.in = in; W = &w; clean(); Argv a(prog(k).name, opts); int rc = 0, ctx = 0; Quiet q; FILE *cookie = nullptr;
  if (k == SBP) { cookie = fopencookie(nullptr, "r", {[](void *, char *, size_t) -> ssize_t { return 0; }, nullptr, nullptr, nullptr}); stdin = cookie; }
  if (setjmp(w.over) == 0) switch (k) { case RTCM: rc = rtcm3tosbp_main(a.n(), a.v.data(), "", mrd, mwr32, &ctx); break; case UBX: rc = ubx2sbp_main(a.n(), a.v.data(), "", mrd, mwr32, &ctx); break; case IX: rc = ixcom2sbp_main(a.n(), a.v.data(), "", mrd, mwr32, &ctx); break; case NOVA: rc = nov2sbp_main(a.n(), a.v.data(), "", mrd32, mwr32, &ctx); break; case SBP: rc = sbp2rtcm_main(a.n(), a.v.data(), "", mrd32, mwr16, &ctx); break; }
  W = nullptr; if (cookie) fclose(cookie); c.check(!w.why, "%s, called with its input in memory, %s", prog(k).name, w.why ? w.why : ""); CHK(c, rc == 0, "%s converts with code %d", prog(k).name, rc); Bytes o = judged(k, w.out); if (keep) memo[{k, in.size()}] = o; return o;
}
struct Ran { int code; bool exited; Bytes out; };
static Ran run_main(Ctx &c, uint32_t k, World &w, const Args &opts, const std::string &how) {
  Ran r{0, false, {}}; W = &w; clean(); Argv a(prog(k).name, opts);
  { Quiet q; FILE *i = fopencookie(nullptr, "r", {ck_read, nullptr, nullptr, nullptr}), *o = fopencookie(nullptr, "w", {nullptr, ck_write, nullptr, nullptr}); stdin = i; stdout = o;
    int j = setjmp(w.over); if (j == 0) r.code = prog(k).entry(a.n(), a.v.data()); else if (j == 1) { r.code = w.code; r.exited = true; }
    fflush(o); W = nullptr; fclose(i); fclose(o); }
  c.step(); c.traced(); CHK(c, !w.why, "%s %s: it %s", prog(k).name, how.c_str(), w.why ? w.why : ""); r.out = judged(k, w.out); return r;
}
static void same(Ctx &c, uint32_t k, const Bytes &got, const Bytes &want, const std::string &how) { if (got == want) return; size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; c.check(false, "%s %s: %zu bytes of output instead of %zu, different from byte %zu", prog(k).name, how.c_str(), got.size(), want.size(), i); }
static size_t frames_in(uint32_t k, const Bytes &o, size_t *longest) { size_t n = 0, p = 0; *longest = 0; while (p < o.size()) { size_t l; if (k == SBP) { if (o[p] != 0xD3 || p + 6 > o.size()) return 0; l = 6u + ((o[p + 1] & 3u) << 8) + o[p + 2]; } else { if (o[p] != 0x55 || p + 8 > o.size()) return 0; l = 8u + o[p + 5]; } if (p + l > o.size()) return 0; if (l > *longest) *longest = l; p += l; n++; } return n; }
// ------------------------------------------------------------------ scenarios
static void sizes(Ctx &c) {        // every read gives the same number of bytes
  uint32_t k = c.choose(NPROG, "program"); static const size_t Z[] = {0, 1, 2, 3, 4, 5, 7, 8, 13, 16, 31, 64, 100, 127, 128, 255, 256, 257, 511, 1023, 4096}; size_t z = Z[c.choose(sizeof Z / sizeof *Z, "bytes per read")]; World w; w.in = prog(k).in; w.piece = [z](long, size_t m) { return z && z < m ? z : m; };
  std::string how = fmt("with reads of %zu bytes", z); Ran r = run_main(c, k, w, prog(k).opts, how); Bytes want = converted(c, k, prog(k).in, prog(k).opts); same(c, k, r.out, want, how); CHK(c, r.code == 0, "%s %s ends with code %d", prog(k).name, how.c_str(), r.code);
  size_t longest, n = frames_in(k, r.out, &longest); CHK(c, n >= prog(k).frames && longest >= prog(k).longest, "%s %s: %zu frames, the longest %zu bytes; expected at least %zu, %zu", prog(k).name, how.c_str(), n, longest, prog(k).frames, prog(k).longest); c.state(mix(k, hash_bytes(r.out.data(), r.out.size())));
}
static void pieces(Ctx &c) {       // some reads give less than was asked
  uint32_t k = c.choose(NPROG, "program"); World w; w.in = prog(k).in; w.piece = [&c](long, size_t m) -> size_t { if (m < 2) return m; switch (c.dev(m > 2 ? 4 : 2, "read")) { case 0: return m; case 1: return 1; case 2: return m - 1; default: return m / 2; } };
  std::string how = "with short reads"; Ran r = run_main(c, k, w, prog(k).opts, how); Bytes want = converted(c, k, prog(k).in, prog(k).opts); same(c, k, r.out, want, how); CHK(c, r.code == 0, "%s %s ends with code %d", prog(k).name, how.c_str(), r.code); c.state(mix(k, (uint64_t)w.reads));
}
static void cut(Ctx &c) {          // the input ends after any number of bytes
  uint32_t k = c.choose(NPROG, "program"); size_t n = c.choose((uint32_t)prog(k).in.size() + 1, "bytes"); size_t z = c.choose(2, "reads") ? 1 : 0; Bytes in(prog(k).in.begin(), prog(k).in.begin() + (long)n); World w; w.in = in; w.piece = [z](long, size_t m) { return z ? (size_t)1 : m; };
  std::string how = fmt("with input of %zu bytes%s", n, z ? ", one at a time" : ""); Ran r = run_main(c, k, w, prog(k).opts, how); same(c, k, r.out, converted(c, k, in, prog(k).opts), how); CHK(c, r.code == 0, "%s %s ends with code %d", prog(k).name, how.c_str(), r.code); c.state(mix(mix(k, n), hash_bytes(r.out.data(), r.out.size())));
}
static void failing(Ctx &c) {      // a read fails, once or for ever
  uint32_t k = c.choose(NPROG, "program"); size_t z = (size_t[]){0, 1, 100, 7}[c.choose(c.thorough ? 4 : 3, "reads")]; World probe; probe.in = prog(k).in; probe.piece = [z](long, size_t m) { return z && z < m ? z : m; }; static std::map<std::pair<uint32_t, size_t>, long> count; long &n = count[{k, z}]; if (n == 0) { run_main(c, k, probe, prog(k).opts, "counting its reads"); n = probe.reads; }
  int with = c.choose(2, "failure") ? EIO : EINTR; World w; w.in = prog(k).in; w.piece = probe.piece; w.fail_at = (long)c.choose((uint32_t)n, "failing read"); w.fail_with = with; std::string how = fmt("with reads of %zu bytes, read %ld failing", z, w.fail_at); c.leaf();
  Ran r = run_main(c, k, w, prog(k).opts, how); CHK(c, w.failed, "%s makes fewer reads", prog(k).name); Bytes head(prog(k).in.begin(), prog(k).in.begin() + (long)w.pos); same(c, k, r.out, converted(c, k, head, prog(k).opts), how); c.state(mix(mix(k, (uint64_t)w.fail_at), hash_bytes(r.out.data(), r.out.size())));
}
static void help(Ctx &c) {         // asked for help, a program reads and writes nothing
  uint32_t k = c.choose(NPROG, "program"); uint32_t at = c.choose(3, "options"); Args a; if (at == 1) a = prog(k).opts; a.push_back("-h"); if (at == 2) for (auto &x : prog(k).opts) a.push_back(x); World w; w.in = prog(k).in; Ran r = run_main(c, k, w, a, "asked for help");
  CHK(c, r.code == 0 && w.out.empty() && w.reads == 0, "%s asked for help: code %d, %zu bytes of output, %ld reads", prog(k).name, r.code, w.out.size(), w.reads); c.state(mix(k, at));
}
static void options(Ctx &c) {      // -s and --sender_id name the sender of every message; --hnr chooses between the two positions of a u-blox receiver
  uint32_t k = c.choose(2, "program") ? IX : UBX; static const struct { const char *text; int is; } V[] = {{nullptr, -1}, {"0", 0}, {"1", 1}, {"7", 7}, {"10", 10}, {"255", 255}, {"256", 256}, {"4711", 4711}, {"32768", 32768}, {"65535", 65535}, {"0x0", 0}, {"0x12", 0x12}, {"0x1234", 0x1234}, {"0xF080", 0xF080}, {"0xffff", 0xFFFF}};
  auto &v = V[c.choose(sizeof V / sizeof *V, "sender")]; uint32_t form = v.text ? c.choose(6, "form") : 0, hnr = k == UBX ? c.choose(4, "position messages") : 0; bool flag = hnr & 1; c.leaf(); Args a; if (flag && form < 3) a.push_back("--hnr");
  if (v.text) switch (form % 3) { case 0: a.push_back("-s"); a.push_back(v.text); break; case 1: a.push_back(std::string("-s") + v.text); break; default: if (form == 2) { a.push_back("--sender_id"); a.push_back(v.text); } else a.push_back(std::string("--sender_id=") + v.text); }
  if (flag && form >= 3) a.push_back("--hnr"); if (v.text && form == 4) { a.insert(a.begin(), "99"); a.insert(a.begin(), "-s"); }
  World w; w.in = prog(k).in; if (k == UBX && hnr & 2) w.in = progs::ubx_position(flag); else if (k == UBX) append(w.in, progs::ubx_position(!flag)); std::string how; for (auto &x : a) how += " " + x; how = "with '" + (how.empty() ? how : how.substr(1)) + "'"; Ran r = run_main(c, k, w, a, how);
  CHK(c, r.code == 0, "%s %s ends with code %d", prog(k).name, how.c_str(), r.code); int want = v.text ? v.is : k == UBX ? 61568 : 4711, n = 0, llh = 0; for (size_t p = 0; p + 8 <= r.out.size(); p += 8u + r.out[p + 5]) { n++; int sender = r.out[p + 3] | r.out[p + 4] << 8, type = r.out[p + 1] | r.out[p + 2] << 8; if (type == SbpMsgPosLlh) llh++; CHK(c, r.out[p] == 0x55 && sender == want, "%s %s: message %d has sender %d instead of %d", prog(k).name, how.c_str(), n, sender, want); }
  if (k == UBX) CHK(c, llh == 1, "%s %s: %d positions from %s", prog(k).name, how.c_str(), llh, hnr & 2 ? "one message of the chosen kind" : "one message of the chosen kind and two of the other"); else CHK(c, n > 10, "%s %s: only %d messages", prog(k).name, how.c_str(), n); c.state(mix(mix(k, (uint64_t)want), form * 4 + hnr));
}
// ------------------------------------------------------------------ the Rust front ends, as processes
static int mem_fd(const Bytes &b) { int f = memfd_create("c35", 0); for (size_t p = 0; p < b.size();) { ssize_t n = write(f, &b[p], b.size() - p); if (n <= 0) break; p += (size_t)n; } lseek(f, 0, SEEK_SET); return f; }
static Bytes slurp(int f) { Bytes b; lseek(f, 0, SEEK_SET); uint8_t t[65536]; ssize_t n; while ((n = read(f, t, sizeof t)) > 0) b.insert(b.end(), t, t + n); return b; }
struct Files { std::string dir, in, out; Files() { char t[] = "/tmp/c35.XXXXXX"; dir = mkdtemp(t) ? t : ""; in = dir + "/in"; out = dir + "/out"; } ~Files() { unlink(in.c_str()); unlink(out.c_str()); rmdir(dir.c_str()); }
  static void put(const std::string &p, const Bytes &b) { int f = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (f < 0) return; for (size_t k = 0; k < b.size();) { ssize_t n = write(f, &b[k], b.size() - k); if (n <= 0) break; k += (size_t)n; } close(f); }
  static bool get(const std::string &p, Bytes &b) { int f = open(p.c_str(), O_RDONLY); if (f < 0) return false; b = slurp(f); close(f); return true; } };
static int spawn(Ctx &c, uint32_t k, const Args &a, int in, int out, const std::string &how) {
  std::string exe = std::string(getenv("GC_RUST") ? getenv("GC_RUST") : "") + "/" + prog(k).name; Argv v(exe.c_str(), a); posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_adddup2(&fa, in, 0); posix_spawn_file_actions_adddup2(&fa, out, 1); posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
  pid_t pid = -1; int e = posix_spawn(&pid, exe.c_str(), &fa, nullptr, v.v.data(), environ); posix_spawn_file_actions_destroy(&fa); c.check(e == 0, "cannot start %s: %s", exe.c_str(), strerror(e)); int st = 0; c.step();
  for (int t = 0;; t++) { pid_t r = waitpid(pid, &st, WNOHANG); if (r == pid) break; if (t > 150000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); c.check(false, "%s %s: it does not end", prog(k).name, how.c_str()); return -1; } usleep(t < 200 ? 50 : 100); }
  c.traced(); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
static const std::vector<Args> &settings(uint32_t k) { static const std::vector<Args> s[NPROG] = {{{"-w", "2100:345600"}, {}, {"-w", "2100:345600", "-o"}, {"-ow", "2100:345600"}}, {{}, {"--hnr"}, {"-s", "7"}, {"--sender_id=7"}}, {{}, {"-s", "7"}, {"--sender_id", "0x1234"}, {"-s9"}}, {{}}, {{}}}; return s[k]; }
static void files(Ctx &c) {        // the files named, or the standard streams
  uint32_t k = c.choose(NPROG, "program"); const Args &set = settings(k)[c.choose((uint32_t)settings(k).size(), "options")]; uint32_t n = c.choose(3, "files"), old = n == 2 ? c.choose(2, "output exists") : 0; int kind = (int)c.choose(3, "standard input"), times = c.choose(2, "input") ? 40 : 1; if (kind == 1 && times > 1) return; c.leaf();
  Bytes in; for (int i = 0; i < times; i++) append(in, prog(k).in); Bytes other = prog(k).in; other.resize(other.size() / 2); Files f; Args a = set; Files::put(f.in, in); if (old) Files::put(f.out, Bytes(500000, 0x55)); if (n > 0) a.push_back(f.in); if (n > 1) a.push_back(f.out);
  std::string how; for (auto &x : a) how += (how.empty() ? "" : " ") + (x == f.in ? "in" : x == f.out ? "out" : x); how = "'" + how + "'" + (kind == 1 ? " behind a pipe" : ""); const Bytes &std_in = n ? other : in; int i, o = memfd_create("c35", 0);
  if (kind == 1) { int pp[2]; if (pipe(pp)) return; fcntl(pp[1], F_SETPIPE_SZ, 1 << 20); if (write(pp[1], std_in.data(), std_in.size()) != (ssize_t)std_in.size()) { close(pp[0]); close(pp[1]); return; } close(pp[1]); i = pp[0]; } else i = mem_fd(kind == 2 && n ? Bytes() : std_in);
  int code = spawn(c, k, a, i, o, how); Bytes got, shown = slurp(o); close(i); close(o); if (code < 0) return; bool there = n < 2 || Files::get(f.out, got); CHK(c, there, "%s %s writes no output file", prog(k).name, how.c_str()); if (n == 2) CHK(c, shown.empty(), "%s %s writes %zu bytes to its standard output", prog(k).name, how.c_str(), shown.size()); else got = shown;
  CHK(c, code == 0, "%s %s ends with code %d", prog(k).name, how.c_str(), code); Bytes want = times == 1 ? converted(c, k, in, set) : Bytes(); if (times > 1) { static std::map<std::pair<uint32_t, std::string>, Bytes> memo; auto key = std::make_pair(k, how.substr(0, how.find("in"))); Bytes &m = memo[key]; if (m.empty()) m = converted(c, k, in, set); want = m; } same(c, k, judged(k, got), want, how); c.state(mix(mix(k, n * 8 + old * 4 + (uint32_t)kind), hash_bytes(got.data(), got.size())));
}
static void missing(Ctx &c) {      // an output that cannot be made, an option that asks for nothing
  uint32_t k = c.choose(NPROG, "program"), w = c.choose(3, "case"); c.leaf(); Files f; Files::put(f.in, prog(k).in); Args a; if (w == 0) a = {"-h"}; if (w == 1) a = {"-h", f.in, f.out}; if (w == 2) a = {f.in, f.dir + "/none/out"}; int i = mem_fd(prog(k).in), o = memfd_create("c35", 0); std::string how = (const char *[]){"-h", "-h in out", "in none/out"}[w]; int code = spawn(c, k, a, i, o, how); Bytes shown = slurp(o), got; close(i); close(o); bool there = Files::get(f.out, got);
  CHK(c, shown.empty() && (!there || got.empty()), "%s %s converts %zu bytes", prog(k).name, how.c_str(), shown.size() + got.size()); CHK(c, (code == 0) == (w < 2), "%s %s ends with code %d", prog(k).name, how.c_str(), code); c.state(mix(k, w));
}
int main(int argc, char **argv) {
  Spec s; s.property = "C35"; s.rule = "the real main functions with read, write, exit and the standard streams replaced: every program with every read size of a list, every placement of short reads up to the bound, end of input after every byte, every read failing once or for ever, help in every place; outputs compared with those of the converter given the same input in memory";
  s.assumptions = {"write takes all bytes it is given", "libsbp is replaced by a stand-in that frames messages in the same way"};
  s.scenarios = {{"sizes", sizes}, {"pieces", pieces, 1, 3}, {"cut", cut}, {"failing", failing}, {"help", help}, {"options", options}, {"files", files}, {"missing", missing}};
  return run(argc, argv, s);
}
