// C19: the shared time reference.  time_truth.c is compiled with thread-sanitizer instrumentation, but the hooks are
// ours: every access it makes to memory outside its own stack is a scheduling point of a cooperative scheduler, so all
// interleavings of its memory accesses are enumerated, and each history is checked for linearizability.
#include "mc.hpp"
#include <cmath>
#include <ucontext.h>
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
extern "C" {
#include <gnss-converters/time_truth.h>
}
#include "shim.h"
using namespace mc;
// ---------------------------------------------------------------- cooperative threads
static const int MAXT = 4; static const size_t STK = 256 * 1024;
struct Op { int kind; int t, src; bool ret; int st, wn; double tow; long inv, res; };
struct Thr { ucontext_t u; char *stk; std::vector<Op> ops; size_t cur; bool done, started; void *want; int steps; };
static struct Sched { ucontext_t main; void *fake; const void *mb; size_t ms; Thr t[MAXT]; int n = 0, run = -1; Ctx *c = nullptr; time_truth_t *obj = nullptr; long clock = 0; void *held[8]; bool overrun; } S;
static void to_main() { Thr &t = S.t[S.run]; void *fs; __sanitizer_start_switch_fiber(&fs, S.mb, S.ms); swapcontext(&t.u, &S.main); __sanitizer_finish_switch_fiber(fs, nullptr, nullptr); }
static void point(const void *p) {
  if (S.run < 0) return; Thr &t = S.t[S.run]; if ((char *)p >= t.stk && (char *)p < t.stk + STK) return; to_main();
  Op &o = S.t[S.run].ops[S.t[S.run].cur]; if (o.inv < 0) o.inv = S.clock++; S.t[S.run].steps++;
}
static const gps_time_t &time_of(int k);
static void exec(Op &o, time_truth_t *tt) {
  if (o.kind == 0) o.ret = time_truth_update(tt, (enum time_truth_source)o.src, time_of(o.t));
  else if (o.kind == 1) { enum time_truth_state st; gps_time_t g; time_truth_get(tt, &st, &g); o.st = (int)st; o.wn = g.wn; o.tow = g.tow; }
  else { sbp_msg_t m; memset(&m, 0, sizeof m); auto &e = m.ephemeris_gps; e.common.toe.wn = (uint16_t)time_of(o.t).wn; e.common.toe.tow = (uint32_t)time_of(o.t).tow; e.common.health_bits = (uint8_t)o.src; e.common.valid = 1; o.ret = time_truth_update_from_sbp(tt, SbpMsgEphemerisGps, &m); }
}
static void body() {
  __sanitizer_finish_switch_fiber(nullptr, &S.mb, &S.ms);
  Thr &t = S.t[S.run]; for (t.cur = 0; t.cur < t.ops.size(); t.cur++) { Op &o = t.ops[t.cur]; o.inv = -1; exec(o, S.obj); if (o.inv < 0) o.inv = S.clock++; o.res = S.clock++; }
  t.done = true; __sanitizer_start_switch_fiber(nullptr, S.mb, S.ms); swapcontext(&t.u, &S.main); abort();
}
static void resume(int k) { S.run = k; void *fs; __sanitizer_start_switch_fiber(&fs, S.t[k].stk, STK); swapcontext(&S.main, &S.t[k].u); __sanitizer_finish_switch_fiber(fs, nullptr, nullptr); S.run = -1; }
static bool held(void *m) { for (void *h : S.held) if (h == m) return true; return false; }
// runs all the threads in every order; returns false if a schedule was abandoned (a spinning thread)
static bool interleave(Ctx &c) {
  S.c = &c; S.clock = 0; memset(S.held, 0, sizeof S.held);
  for (int k = 0; k < S.n; k++) { Thr &t = S.t[k]; if (!t.stk) t.stk = (char *)aligned_alloc(4096, STK); __asan_unpoison_memory_region(t.stk, STK); getcontext(&t.u); t.u.uc_stack.ss_sp = t.stk; t.u.uc_stack.ss_size = STK; t.u.uc_link = nullptr; makecontext(&t.u, body, 0); t.done = false; t.want = nullptr; t.steps = 0; resume(k); }
  int last = -1;
  for (;;) {
    int en[MAXT], n = 0; bool any = false; for (int k = 0; k < S.n; k++) if (!S.t[k].done) { any = true; if (!S.t[k].want || !held(S.t[k].want)) en[n++] = k; }
    if (!any) return true; if (!n) { c.check(false, "threads deadlock"); return false; }
    int k = en[n > 1 ? c.choose((uint32_t)n, "thread") : 0]; last = k; if (S.t[k].steps > 64) return false; if (c.logging) c.note("thread %d", k); c.step(); resume(k);
  }
}
// ---------------------------------------------------------------- instrumentation hooks
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_vptr_update(void **, void *) {} void __tsan_vptr_read(void **) {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void *p) { point(p); } void __tsan_write##n(void *p) { point(p); } void __tsan_read_write##n(void *p) { point(p); } void __tsan_unaligned_read##n(void *p) { point(p); } void __tsan_unaligned_write##n(void *p) { point(p); } void __tsan_unaligned_read_write##n(void *p) { point(p); } \
  void __tsan_volatile_read##n(void *p) { point(p); } void __tsan_volatile_write##n(void *p) { point(p); } void __tsan_unaligned_volatile_read##n(void *p) { point(p); } void __tsan_unaligned_volatile_write##n(void *p) { point(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
// block accesses are not atomic: one point for every eight bytes
static void block(const void *p, size_t n) { for (size_t i = 0; i < n; i += 8) point((const char *)p + i); }
void __tsan_read_range(void *p, size_t n) { block(p, n); } void __tsan_write_range(void *p, size_t n) { block(p, n); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i += 4) { point((const char *)s + i); point((char *)d + i); size_t k = n - i < 4 ? n - i : 4; for (size_t j = 0; j < k; j++) ((volatile char *)d)[i + j] = ((const char *)s)[i + j]; } return d; }
void *__tsan_memmove(void *d, const void *s, size_t n) { return __tsan_memcpy(d, s, n); }
void *__tsan_memset(void *d, int v, size_t n) { for (size_t i = 0; i < n; i++) { if (i % 4 == 0) point((char *)d + i); ((volatile char *)d)[i] = (char)v; } return d; }
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T *p, int) { point((const void *)p); return *p; } void __tsan_atomic##b##_store(volatile T *p, T v, int) { point((const void *)p); *p = v; } \
  T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { point((const void *)p); T o = *p; *p = v; return o; } T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { point((const void *)p); T o = *p; *p = (T)(o + v); return o; } T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { point((const void *)p); T o = *p; *p = (T)(o - v); return o; } \
  T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { point((const void *)p); T o = *p; *p = (T)(o & v); return o; } T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { point((const void *)p); T o = *p; *p = (T)(o | v); return o; } T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) { point((const void *)p); T o = *p; *p = (T)(o ^ v); return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { point((const void *)p); T o = *p; if (o == *e) { *p = v; return 1; } *e = o; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { point((const void *)p); T o = *p; if (o == *e && !(S.run >= 0 && S.c->dev(2, "spurious failure"))) { *p = v; return 1; } *e = o; return 0; } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int, int) { point((const void *)p); T o = *p; if (o == e) *p = v; return o; }
typedef unsigned __int128 u128;
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, u128)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// objects too large for an atomic instruction
void at_load(size_t n, void *p, void *r, int) __asm__("__atomic_load"); void at_load(size_t n, void *p, void *r, int) { point(p); memcpy(r, p, n); }
void at_store(size_t n, void *p, void *v, int) __asm__("__atomic_store"); void at_store(size_t n, void *p, void *v, int) { point(p); memcpy(p, v, n); }
void at_exchange(size_t n, void *p, void *v, void *r, int) __asm__("__atomic_exchange"); void at_exchange(size_t n, void *p, void *v, void *r, int) { point(p); memcpy(r, p, n); memcpy(p, v, n); }
bool at_cas(size_t n, void *p, void *e, void *v, int, int) __asm__("__atomic_compare_exchange"); bool at_cas(size_t n, void *p, void *e, void *v, int, int) { point(p); if (!memcmp(p, e, n)) { memcpy(p, v, n); return true; } memcpy(e, p, n); return false; }
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (S.run < 0) return __real_pthread_mutex_lock(m); Thr &t = S.t[S.run]; t.want = m; point(m); for (void *&h : S.held) if (!h) { h = m; break; } S.t[S.run].want = nullptr; return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (S.run < 0) return __real_pthread_mutex_trylock(m); point(m); if (held(m)) return 16; for (void *&h : S.held) if (!h) { h = m; break; } return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (S.run < 0) return __real_pthread_mutex_unlock(m); point(m); for (void *&h : S.held) if (h == m) h = nullptr; return 0; }
}
// ---------------------------------------------------------------- specification
static const int64_t WEEK = 604800000;
struct Spec1 { int64_t ms = -1; };   // -1: unknown
static const gps_time_t TIMES[] = {{604799.0, 2100}, {0.0, 2101}, {1.0, 2101}, {5.0, 1875}, {-1.0, 2100}, {604800.0, 2100}, {604799.999, 2100}, {604799.5, 2099}, {0.001, 2101}, {100000.004, 2100}, {100000.003, 2100}, {0.0, 1876}, {604799.0, 1875}, {3.0, -1}, {12.0, 2048}, {302400.25, 32767}, {604799.98, 2100}, {500.0, 0}, {604799.9996, 2100}, {604799.99999, 2101}};
static const int NTIMES = (int)(sizeof TIMES / sizeof *TIMES);
static const gps_time_t &time_of(int k) { return TIMES[k]; }
static int64_t ms_of(int k) { return TIMES[k].wn * WEEK + std::min<int64_t>(std::llround(TIMES[k].tow * 1000), WEEK - 1); }   // the last half millisecond of a week stays in it
static bool sound(int k, int src) { auto &t = TIMES[k]; return src >= 0 && src <= 2 && t.wn >= 1876 && t.tow >= 0 && t.tow < 604800; }
// applies an operation to the specification; false if its results cannot be explained
static bool apply(Spec1 &s, const Op &o) {
  if (o.kind == 1) {
    if (s.ms < 0) return o.st == TIME_TRUTH_UNKNOWN && (o.wn < 0 || o.tow < 0);
    return o.st == TIME_TRUTH_SOLVED && o.tow >= 0 && o.tow < 604800 && std::fabs(o.wn * (double)WEEK + o.tow * 1000 - (double)s.ms) < 1;
  }
  bool ok = (o.kind == 0 ? sound(o.t, o.src) : o.src == 0 && sound(o.t, 0)) && ms_of(o.t) > s.ms; if (ok) s.ms = ms_of(o.t); return o.ret == ok;
}
static std::string say(const Op &o) { return o.kind == 1 ? fmt("get=%d:%d/%g", o.st, o.wn, o.tow) : fmt("%s(%d/%g,%d)=%d", o.kind ? "from_sbp" : "update", TIMES[o.t].wn, TIMES[o.t].tow, o.src, o.ret); }
// is there an order of the operations, consistent with their real order, that explains every result?
static bool linear(std::vector<Op *> &v, unsigned used, Spec1 s) {
  if (used == (1u << v.size()) - 1) return true; long first = 1l << 60; for (size_t i = 0; i < v.size(); i++) if (!(used >> i & 1) && v[i]->res < first) first = v[i]->res;
  for (size_t i = 0; i < v.size(); i++) if (!(used >> i & 1) && v[i]->inv < first) { Spec1 t = s; if (apply(t, *v[i]) && linear(v, used | 1u << i, t)) return true; } return false;
}
// ---------------------------------------------------------------- scenarios
static void one_op(Ctx &c, Op &o) {   // the operations threads perform
  static const struct { int kind, t, src; } A[] = {{1, 0, 0}, {0, 0, 1}, {0, 1, 2}, {0, 2, 0}, {2, 1, 0}, {2, 2, 1}, {0, 4, 1}}; auto &a = A[c.choose(c.thorough ? 7 : 5, "operation")]; o = Op(); o.kind = a.kind; o.t = a.t; o.src = a.src;
}
static void threads(Ctx &c, std::vector<int> shape) {
  static time_truth_t tt; time_truth_init(&tt); S.obj = &tt; Spec1 s0; int k0 = (int)c.choose(3, "before"); if (k0) { Op o = Op(); o.kind = 0; o.t = k0 == 1 ? 7 : 0; o.src = 1; exec(o, &tt); if (!apply(s0, o)) { c.check(false, "%s on a fresh reference", say(o).c_str()); return; } }
  S.n = (int)shape.size(); for (int k = 0; k < S.n; k++) { S.t[k].ops.resize((size_t)shape[(size_t)k]); for (auto &o : S.t[k].ops) one_op(c, o); }
  if (!interleave(c)) return; c.traced(); Op g = Op(); g.kind = 1; exec(g, &tt); g.inv = S.clock++; g.res = S.clock++;
  std::vector<Op *> all; for (int k = 0; k < S.n; k++) for (auto &o : S.t[k].ops) all.push_back(&o); all.push_back(&g); uint64_t h = 0; for (auto *o : all) h = mix(h, hash_str(say(*o))); c.state(h);
  if (!linear(all, 0, s0)) { std::string d; for (int k = 0; k < S.n; k++) { d += fmt(" thread %d:", k); for (auto &o : S.t[k].ops) d += fmt(" %s[%ld-%ld]", say(o).c_str(), o.inv, o.res); } c.check(false, "no order explains%s; in the end %s", d.c_str(), say(g).c_str()); }
}
static void t22(Ctx &c) { threads(c, {2, 2}); }
static void t111(Ctx &c) { threads(c, {1, 1, 1}); }
static void t13(Ctx &c) { threads(c, {3, 1}); }
static void t23(Ctx &c) { threads(c, {2, 3}); }
static void t211(Ctx &c) { threads(c, {2, 1, 1}); }
static void t1111(Ctx &c) { threads(c, {1, 1, 1, 1}); }
// sequences of updates from every source with sound and unsound times
static void sequence(Ctx &c) {
  int n = c.thorough ? 4 : 3; time_truth_t tt; memset(&tt, 0xA5, sizeof tt); time_truth_init(&tt); Spec1 s; std::string how;
  for (int i = 0; i < n; i++) { Op o = Op(); o.t = (int)c.choose((uint32_t)NTIMES, "time"); o.src = i < 2 ? (int)c.choose(4, "source") : (int)c.choose(2, "source") * 3; o.kind = 0; exec(o, &tt); how += " " + say(o); c.step(); bool ok = apply(s, o); CHK(c, ok, "after%s", how.c_str()); Op g = Op(); g.kind = 1; exec(g, &tt); ok = apply(s, g); CHK(c, ok, "after%s: %s", how.c_str(), say(g).c_str()); }
  c.traced(); c.state(hash_str(how));
}
// only healthy GPS ephemerides count
static void messages(Ctx &c) {
  time_truth_t tt; time_truth_init(&tt); Spec1 s; if (c.choose(2, "known")) { Op o = Op(); o.t = 7; o.src = 2; exec(o, &tt); apply(s, o); }
  int k = (int)c.choose(8, "type"), t = (int)c.choose((uint32_t)NTIMES, "time"), health = (int[]){0, 1, 2, 32, 63, 128, 255}[c.choose(7, "health")], valid = (int)c.choose(2, "valid"); static const sbp_msg_type_t T[] = {SbpMsgEphemerisGps, SbpMsgEphemerisGal, SbpMsgEphemerisBds, SbpMsgEphemerisQzss, SbpMsgEphemerisGlo, SbpMsgObs, SbpMsgLog, SbpMsgSsrOrbitClock};
  if (TIMES[t].tow != std::floor(TIMES[t].tow) || TIMES[t].tow < 0 || TIMES[t].wn < 0) return; sbp_msg_t m; memset(&m, 0, sizeof m); m.ephemeris_gps.common.toe.wn = (uint16_t)TIMES[t].wn; m.ephemeris_gps.common.toe.tow = (uint32_t)TIMES[t].tow; m.ephemeris_gps.common.health_bits = (uint8_t)health; m.ephemeris_gps.common.valid = (uint8_t)valid;
  if (k >= 1 && k <= 3) { m.ephemeris_gal.common = m.ephemeris_gps.common; } if (k == 4) { sbp_msg_t z; memset(&z, 0, sizeof z); z.ephemeris_glo.common = m.ephemeris_gps.common; m = z; } if (k == 5) { sbp_msg_t z; memset(&z, 0, sizeof z); z.obs.header.t.wn = (uint16_t)TIMES[t].wn; z.obs.header.t.tow = (uint32_t)TIMES[t].tow * 1000; m = z; }
  bool ret = time_truth_update_from_sbp(&tt, T[k], &m); c.step(); c.traced(); std::string how = fmt("message %x of time %d/%g health %d valid %d", T[k], TIMES[t].wn, TIMES[t].tow, health, valid); bool ok = k == 0 && health == 0 && sound(t, 0) && ms_of(t) > s.ms; if (ok) s.ms = ms_of(t);
  CHK(c, ret == ok, "%s: %d", how.c_str(), ret); Op g = Op(); g.kind = 1; exec(g, &tt); CHK(c, apply(s, g), "%s: then %s", how.c_str(), say(g).c_str()); c.state(mix(hash_str(how), ret)); enum time_truth_state st = TIME_TRUTH_UNKNOWN; gps_time_t x; time_truth_get(&tt, nullptr, &x); time_truth_get(&tt, &st, nullptr); time_truth_get(&tt, nullptr, nullptr); CHK(c, x.wn == g.wn && x.tow == g.tow && (int)st == g.st, "%s: partial reads differ", how.c_str());
}
// every whole second and millisecond of interest is kept as it is
static void exact(Ctx &c) {
  uint32_t part = c.choose(600, "part"); int wn = (int[]){1876, 2100, 32766}[c.choose(3, "week")]; time_truth_t tt; time_truth_init(&tt);
  for (int i = 0; i < 1008; i++) for (int f : {0, 1, 250, 999}) { gps_time_t t = {part * 1008 + i + f / 1000.0, (int16_t)wn}, g; enum time_truth_state st; bool r = time_truth_update(&tt, TIME_TRUTH_EPH_BDS, t); CHK(c, r, "%d/%.3f refused", wn, t.tow); bool again = time_truth_update(&tt, TIME_TRUTH_EPH_GAL, t); CHK(c, !again, "%d/%.3f accepted twice", wn, t.tow); time_truth_get(&tt, &st, &g); CHK(c, st == TIME_TRUTH_SOLVED && g.wn == wn && g.tow >= 0 && g.tow < 604800 && std::fabs(g.tow - t.tow) < 0.9e-3, "%d/%.3f read as %d/%.6f", wn, t.tow, g.wn, g.tow); }
  c.step(4032); c.traced(); c.state(mix(part, (uint64_t)wn));
}
int main(int argc, char **argv) {
  mc::Spec s; s.property = "C19"; s.rule = "all interleavings of the memory accesses of 2-4 threads running every short program of updates, message updates and reads, each history checked for linearizability against a millisecond specification; all sequences of updates from all sources with sound and unsound times; every second of a week";
  s.assumptions = {"sequentially consistent memory (the reference is one atomic word)", "a failed weak compare-exchange is a deviation", "times are compared to the millisecond"};
  s.scenarios = {{"threads 2+2", t22}, {"threads 1+1+1", t111}, {"sequence", sequence}, {"messages", messages}, {"exact", exact}, {"threads 3+1", t13, 1, 1, true}, {"threads 2+1+1", t211, 1, 1, true}, {"threads 2+3", t23, 1, 1, true}, {"threads 1+1+1+1", t1111, 1, 1, true}};
  return mc::run(argc, argv, s);
}
