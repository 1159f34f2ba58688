// C33: the command line of rtcm3tosbp selects exactly what it says
#include "obsref.hpp"
#include "rtcmref.hpp"
#include <getopt.h>
#include <sys/time.h>
#include <time.h>
extern "C" {
int rtcm3tosbp_main(int argc, char **argv, const char *additional_opts_help, int (*readfn)(uint8_t *, size_t, void *), sbp_write_fn_t writefn, void *context);
extern void (*shim_on_send)(sbp_msg_type_t type, u16 sender, const sbp_msg_t *msg, void *io);
}
using namespace mc; using namespace obsref; using namespace msmref;
// ------------------------------------------------------------------ running the program
static std::vector<Emit> sent; static Bytes pin; static size_t ppos, pchunk; static long preads; static size_t pbytes;
static void on_send(sbp_msg_type_t t, u16 sender, const sbp_msg_t *m, void *) { Emit e; e.sender = sender; e.type = (int)t; e.m = *m; sent.push_back(e); }
static int prd(uint8_t *b, size_t n, void *) { if (++preads > 100000) return -1; size_t k = pin.size() - ppos; if (pchunk && k > pchunk) k = pchunk; if (k > n) k = n; if (k) memcpy(b, &pin[ppos], k); ppos += k; return (int)k; }
static s32 pwr(u8 *, u32 n, void *) { pbytes += n; return (s32)n; }
// the clock of the system, as the program sees it
static time_t clock_says = 0; static FILE *shows = nullptr;
extern "C" {
time_t __real_time(time_t *); int __real_clock_gettime(clockid_t, struct timespec *); int __real_gettimeofday(struct timeval *, void *);
time_t __wrap_time(time_t *t) { if (!clock_says) return __real_time(t); if (t) *t = clock_says; return clock_says; }
int __wrap_clock_gettime(clockid_t k, struct timespec *t) { if (!clock_says || k != CLOCK_REALTIME) return __real_clock_gettime(k, t); t->tv_sec = clock_says; t->tv_nsec = 0; return 0; }
int __wrap_gettimeofday(struct timeval *t, void *z) { if (!clock_says) return __real_gettimeofday(t, z); t->tv_sec = clock_says; t->tv_usec = 0; return 0; }
}
static int program(const std::vector<std::string> &opts, const Bytes &stream) {
  static FILE *quiet = fopen("/dev/null", "w"); std::vector<std::string> a = {"rtcm3tosbp"}; a.insert(a.end(), opts.begin(), opts.end());
  // each argument in an allocation of its own
  std::vector<std::unique_ptr<char[]>> own; std::vector<char *> av; for (auto &x : a) { own.emplace_back(new char[x.size() + 1]); memcpy(own.back().get(), x.c_str(), x.size() + 1); av.push_back(own.back().get()); } av.push_back(nullptr);
  conv::all_constellations(); verbosity_level = VERB_NORMAL; pin = stream; ppos = 0; preads = 0; sent.clear(); pbytes = 0;
  FILE *e = stderr, *o = stdout; stderr = quiet; stdout = shows ? shows : quiet; shim_on_send = on_send; optind = 0;
  int rc = rtcm3tosbp_main((int)a.size(), av.data(), "", prd, pwr, nullptr);
  pchunk = 0; shim_on_send = nullptr; stderr = e; stdout = o; conv::all_constellations(); verbosity_level = VERB_NORMAL; return rc;
}
static std::string line(const std::vector<std::string> &o) { std::string s = "rtcm3tosbp"; for (auto &x : o) s += " '" + x + "'"; return s; }
// ------------------------------------------------------------------ what an option list means
struct Conf {
  bool refused = false, nothing = false, timed = false, obs = false, loose = false; int64_t now = 0; uint32_t masked = 0; double bias[CODE_COUNT] = {0}, cb[2] = {0}, pb[2] = {0};
};
enum { MG = 1, MR = 2, ME = 4, MC = 8, MJ = 16, MS = 32 };
static const char LET[] = "GRECJS"; static const int CON[] = {CONSTELLATION_GPS, CONSTELLATION_GLO, CONSTELLATION_GAL, CONSTELLATION_BDS, CONSTELLATION_QZS, CONSTELLATION_SBAS};
static int fcn_of(int sat) { return (sat * 5) % 14 - 7; }          // the channels used by every stream
// the measurements of an epoch under a configuration
static void configure(const Conf &f, std::vector<Epoch> &v) {
  for (auto &e : v) for (auto &x : e.cells) {
    x.P += f.bias[x.code]; int k = x.code == CODE_GLO_L1OF ? 0 : x.code == CODE_GLO_L2OF ? 1 : -1; if (k >= 0) { x.P += fcn_of(x.sat) * f.cb[k]; x.L += fcn_of(x.sat) * f.pb[k]; }
  }
}
// ------------------------------------------------------------------ streams
static Leg leg(int num, uint32_t t, bool sync, std::vector<int> ids) {
  Leg l; l.num = num; l.stn = 9; l.t = t; l.sync = sync;
  for (int id : ids) { LegSat s; s.id = id; s.pr += 777 * id; s.ph += 11 * id; s.cnr = 100 + id; s.fcn = num >= 1009 ? fcn_of(id) + 7 : 0; s.code1 = num < 1009 && id % 3 == 0; s.code2 = num < 1009 && id % 2; l.s.push_back(s); }
  return l;
}
static Msg msm(int cons, int kind, uint32_t t, uint64_t sats, bool more, bool all_signals) {
  Msg m; m.cons = cons; m.kind = kind; m.sat_mask = sats; if (all_signals) { m.sig_mask = 0; for (auto &x : SIGNALS[cons]) m.sig_mask |= 1u << (32 - x.id); } else m.sig_mask = 1u << 30;
  m.all_cells(); m.fill((uint32_t)cons + 3); m.epoch = t; m.mult = more; m.stn = 9; size_t k = 0; for (int i = 1; i <= 64; i++) if (sats >> (64 - i) & 1) { if (cons == GLO) m.sats[k].info = (uint32_t)(fcn_of(i) + 7); k++; } return m;
}
static uint64_t bit(int id) { return 1ull << (64 - id); }
static uint32_t raw_time(int cons, int64_t t) { if (cons == GLO) return (uint32_t)(5u << 27 | (uint32_t)((t - 18000 + 3 * 3600000ll) % DAY)); if (cons == BDS) t -= 14000; return (uint32_t)(t % WEEK); }
struct Stream { Bytes b; std::vector<std::function<void(Model &)>> feed; void add(const Leg &l) { append(b, rtcm_frame(l.bytes())); feed.push_back([l](Model &m) { m.feed(l); }); } void add(const Msg &q) { append(b, rtcm_frame(q.bytes())); feed.push_back([q](Model &m) { m.feed(q); }); } };
static const int64_t T0 = 2100ll * WEEK + 345600000;
// every constellation and signal the converter knows, from legacy and multi-signal messages
static const Stream &everything() {
  static Stream s; if (!s.b.empty()) return s; int64_t t = T0 + 20000;
  s.add(leg(1004, raw_time(GPS, t), true, {3, 4, 40, 41, 58})); s.add(leg(1012, raw_time(GLO, t) & 0x7FFFFFF, false, {1, 2, 3, 14})); t += 6000;
  s.add(leg(1002, raw_time(GPS, t), true, {6, 50})); s.add(leg(1010, raw_time(GLO, t) & 0x7FFFFFF, false, {5, 24})); t += 6000;
  s.add(msm(GPS, 7, raw_time(GPS, t), bit(2) | bit(31), true, true)); s.add(msm(GLO, 7, raw_time(GLO, t), bit(1) | bit(2) | bit(14), true, true)); s.add(msm(GAL, 7, raw_time(GAL, t), bit(7) | bit(36), true, true)); s.add(msm(BDS, 7, raw_time(BDS, t), bit(3) | bit(40), false, true)); t += 1000;
  s.add(msm(GPS, 4, raw_time(GPS, t), bit(9), true, true)); s.add(msm(GLO, 5, raw_time(GLO, t), bit(24), true, true)); s.add(msm(GAL, 5, raw_time(GAL, t), bit(1), true, true)); s.add(msm(BDS, 6, raw_time(BDS, t), bit(63), false, true));
  return s;
}
static const std::vector<std::string> W0 = {"-w", "2100:345600"};
static void expect(Ctx &c, const Conf &f, const std::vector<std::string> &opts, const Stream &s) {
  std::string how = line(opts); c.at("%s", how.c_str()); int rc = program(opts, s.b); c.step(); size_t obs = 0; for (auto &e : sent) obs += e.type == SbpMsgObs;
  if (f.refused) { CHK(c, rc != 0 && sent.empty(), "%s is accepted (ends with %d after %zu messages)", how.c_str(), rc, sent.size()); c.traced(); return; }
  if (f.loose && rc != 0 && sent.empty()) return;          // refusing is right, too
  CHK(c, rc == 0, "%s ends with %d", how.c_str(), rc);
  if (f.nothing) { CHK(c, sent.empty() && ppos == 0, "%s converts data", how.c_str()); return; }
  CHK(c, ppos == s.b.size(), "%s: %zu of %zu bytes read", how.c_str(), ppos, s.b.size());
  if (!f.timed) { for (auto &e : sent) if (e.type == SbpMsgObs) CHK(c, e.m.obs.n_obs == 0, "%s: measurements without a time", how.c_str()); return; }
  Model m((int)(f.now / WEEK), f.now % WEEK, 18); for (int i = 0; i < 6; i++) m.excluded[(size_t)CON[i]] = f.masked >> i & 1;
  size_t done = 0; for (auto &x : s.feed) { x(m); if (f.obs) for (; done < m.out.size(); done++) { m.now = (int64_t)m.out[done].wn * WEEK + m.out[done].tow; } }
  configure(f, m.out); CHK(c, obs || m.out.empty(), "%s: nothing converted", how.c_str());
  static R2S r; r.out.clear(); r.out.swap(sent); compare(c, m, r, how.c_str());
}
static Conf timed() { Conf f; f.timed = true; f.now = T0; return f; }
// ------------------------------------------------------------------ constellations
// every set of constellations, written in different ways
static void masks(Ctx &c) {
  uint32_t set = c.choose(64, "disabled"); int style = (int)c.choose(6, "style"); std::string let; for (int i = 0; i < 6; i++) if (set >> i & 1) let += LET[i]; if (style & 1) std::reverse(let.begin(), let.end());
  std::vector<std::string> o; Conf f = timed(); f.masked = set; auto letters = [&] { if (let.empty()) return; if (style / 2 == 1) o.push_back("-" + let); else for (char x : let) { o.push_back(std::string("-") + x); if (style / 2 == 2) o.push_back(std::string("-") + x); } };
  if (style & 1) letters(); o.insert(o.end(), W0.begin(), W0.end()); if (!(style & 1)) letters(); int v = (int)c.choose(3, "verbosity"); for (int i = 0; i < v; i++) o.push_back("-v"); pchunk = v == 0 ? 0 : v == 1 ? 1 : 77;
  expect(c, f, o, everything());
}
// ------------------------------------------------------------------ biases
static const char *NUM_TEXT[] = {"0", "1", "-1", "5.5", "-7.25", "+3", "100", "-250.02", "1e3", "-2.5e-1", ".5", "7.", "000012.50", "19999.98", "-0.04", "1E+2", "-30000000"};
static const double NUM_VAL[] = {0, 1, -1, 5.5, -7.25, 3, 100, -250.02, 1000, -0.25, 0.5, 7, 12.5, 19999.98, -0.04, 100, -30000000};
static const int NNUM = 17;
static void give(std::vector<std::string> &o, char opt, const std::string &arg, int style) {
  std::string l = std::string("-") + opt; switch (style) { case 0: o.push_back(l); o.push_back(arg); break; case 1: o.push_back(l + arg); break; case 2: o.push_back(l + "=" + arg); break; default: o.push_back(l); o.push_back("=" + arg); }
}
static void set(Conf &f, char opt, int code, double d) { double v = (double)(float)d; if (opt == 'b') f.bias[code] = v; else (opt == 'c' ? f.cb : f.pb)[code == CODE_GLO_L2OF] = v; }
// one bias of every signal and value
static void biases(Ctx &c) {
  int code = (int)c.choose(CODE_COUNT + 4, "signal"), k = (int)c.choose((uint32_t)NNUM, "bias"), style = (int)c.choose(4, "style"); Conf f = timed(); std::vector<std::string> o = W0; char opt = 'b';
  if (code >= CODE_COUNT) { opt = "cl"[code / 2 % 2]; code = code % 2 ? CODE_GLO_L1OF : CODE_GLO_L2OF; if (std::fabs(NUM_VAL[k]) > 2000) return; } set(f, opt, code, NUM_VAL[k]); give(o, opt, fmt("%d:%s", code, NUM_TEXT[k]), style); expect(c, f, o, everything());
}
// a bias for every pair of signals at once, in one option or in two
static void pairs(Ctx &c) {
  int a = (int)c.choose(CODE_COUNT, "signal"), b = (int)c.choose(CODE_COUNT, "other signal"), two = (int)c.choose(3, "written"); Conf f = timed(); std::vector<std::string> o; if (two == 2) o.push_back("-v"); set(f, 'b', a, 12.34); set(f, 'b', b, -56.78);
  if (two != 1) give(o, 'b', fmt("%d:12.34,%d:-56.78", a, b), 0); else { give(o, 'b', fmt("%d:12.34", a), 1); give(o, 'b', fmt("%d:-56.78", b), 1); } o.insert(o.end(), W0.begin(), W0.end()); expect(c, f, o, everything());
}
// lists of entries, right ones and wrong ones
static const std::string past_ = fmt("%d:5", CODE_COUNT), farpast_ = fmt("%d:5", CODE_COUNT + 3); static const char *PAST = past_.c_str(), *FARPAST = farpast_.c_str();
struct Ent { const char *t; int code; double v; };           // code -1: wrong
static const Ent EB[] = {{"0:5.5", 0, 5.5}, {"14:-7.25", 14, -7.25}, {"3:100", 3, 100}, {"0:-1", 0, -1}, {"-1:5", -1, 0}, {"-1000000:5", -1, 0}, {"999:5", -1, 0}, {"2147483647:1", -1, 0}, {"0", -1, 0}, {"0:", -1, 0}, {":5", -1, 0}, {"x:5", -1, 0}, {"0:x", -1, 0}, {"0;5", -1, 0}, {"L1CA:5", -1, 0}, {"1:5.5m", -1, 0}, {"1:2;3:4", -1, 0}, {"0:nan", -1, 0}, {"0:inf", -1, 0}, {"0:-inf", -1, 0}, {PAST, -1, 0}, {FARPAST, -1, 0}, {"4294967296:1", -1, 0}, {"1:2:3", -1, 0}, {"0.5:1", -1, 0}, {"4:2.5", 4, 2.5}};
static const Ent EG[] = {{"3:5.5", 3, 5.5}, {"4:-7.25", 4, -7.25}, {"3:-0.5", 3, -0.5}, {"-1:5", -1, 0}, {"0:5", -1, 0}, {"5:5", -1, 0}, {"99:1", -1, 0}, {"3", -1, 0}, {"3:", -1, 0}, {":5", -1, 0}, {"x:5", -1, 0}, {"3:x", -1, 0}, {"3;5", -1, 0}, {"3:1x", -1, 0}, {"3:1;4:2", -1, 0}, {"3:nan", -1, 0}, {"4:inf", -1, 0}, {"29:1", -1, 0}, {"30:1", -1, 0}};
static void lists(Ctx &c) {
  char opt = "bcl"[c.choose(3, "option")]; const Ent *E = opt == 'b' ? EB : EG; int n = opt == 'b' ? (int)(sizeof EB / sizeof *EB) : (int)(sizeof EG / sizeof *EG), len = 1 + (int)c.choose(c.thorough ? 4 : 3, "entries"); std::string arg; Conf f = timed();
  for (int i = 0; i < len; i++) { const Ent &e = E[c.choose((uint32_t)n, "entry")]; arg += std::string(i ? "," : "") + e.t; if (e.code < 0) f.refused = true; else set(f, opt, e.code, e.v); }
  std::vector<std::string> o; int place = (int)c.choose(2, "place"); if (place) o = W0; give(o, opt, arg, 0); if (!place) o.insert(o.end(), W0.begin(), W0.end()); expect(c, f, o, everything());
}
// every text over a small alphabet as the argument of a bias option
static bool number(const std::string &s, size_t &p, bool frac, double &v) {
  size_t q = p; bool neg = false; if (q < s.size() && (s[q] == '-' || s[q] == '+')) neg = s[q++] == '-'; size_t dg = 0; double x = 0, k = 1; while (q < s.size() && isdigit((unsigned char)s[q])) { x = x * 10 + (s[q++] - '0'); dg++; }
  if (frac && q < s.size() && s[q] == '.') { q++; while (q < s.size() && isdigit((unsigned char)s[q])) { k /= 10; x += k * (s[q++] - '0'); dg++; } }
  if (!dg) return false; v = neg ? -x : x; p = q; return true;
}
static const Stream &small() { static Stream s; if (s.b.empty()) { int64_t t = T0 + 20000; s.add(leg(1004, raw_time(GPS, t), true, {3, 4})); s.add(msm(GLO, 7, raw_time(GLO, t + 1000), bit(1) | bit(14), false, true)); } return s; }
static void texts(Ctx &c) {
  static const char AL[] = "34:,-.1x"; char opt = "bcl"[c.choose(3, "option")]; int len = (int)c.choose(c.thorough ? 9 : 7, "length"); std::string arg; for (int i = 0; i < len; i++) arg += AL[c.choose(8, "character")];
  Conf f = timed(); size_t p = 0; std::string x = arg + ","; 
  while (p < x.size()) { if (x[p] == ',') { f.loose = true; p++; continue; }       // empty entries: refused or passed over
    double k = 0, v = 0; bool ok = number(x, p, false, k) && p < x.size() && x[p] == ':'; if (ok) { p++; ok = number(x, p, true, v) && x[p] == ','; } if (ok && (k < 0 || k >= CODE_COUNT || (opt != 'b' && k != 3 && k != 4))) ok = false; if (!ok) { f.refused = true; break; } if (std::fabs(v) > 500) return;      /* beyond single precision */ set(f, opt, (int)k, v); p++; }
  std::vector<std::string> o = W0; give(o, opt, arg, 0); expect(c, f, o, small());
}
// ------------------------------------------------------------------ times
// observations just before and just after half a week from the time given: together they show it to two minutes
static Stream around(int64_t now) { Stream s; for (int64_t d : std::initializer_list<int64_t>{-(WEEK / 2) + 120000, WEEK / 2 - 120000, 0}) { int64_t t = now + d; if (t < 0) continue; if (t % WEEK == 0) t += 1000; Msg m = msm(GPS, 4, raw_time(GPS, t), bit(5), false, false); s.add(m); } return s; }
static void want_time(Ctx &c, int64_t now, const std::vector<std::string> &o) {
  Conf f = timed(); f.now = now; expect(c, f, o, around(now));
}
static void weeks(Ctx &c) {
  static const int W[] = {1876, 1877, 1929, 1930, 2047, 2048, 2049, 2100, 2400, 2899, 3000, 4096, 10000}; static const double T[] = {0, 0.5, 1, 120, 86400, 151200, 302399, 302400, 302401, 345600.25, 500000, 604799, 604799.5}; int w = W[c.choose(13, "week")]; double t = T[c.choose(13, "time of week")]; int style = (int)c.choose(4, "style");
  static const char *F[] = {"%d:%.1f", "%d:%.3f", "%05d:%012.1f", " %d:%.1f"}; int sh = (int)c.choose(4, "format"); double shown = atof(fmt(sh == 1 ? "%.3f" : "%.1f", t).c_str()); std::vector<std::string> o; give(o, 'w', fmt(F[sh], w, t), style); want_time(c, (int64_t)w * WEEK + (int64_t)(shown * 1000), o);
}
static void wrong_weeks(Ctx &c) {
  static const char *X[] = {"", ":", "2100", "2100:", ":5", "x", "2100:x", "x:5", "2100,5", "2100;345600", "-1:5", "-1:0", "2100:-1", "2100:-0.5", "2100:604801", "2100:700000", "2100:1e9", "2100:nan", "2100:inf", "nan:0", "65536:0", "67636:345600", "-63436:345600", "4294969396:345600", "32768:5", "99999:0", "-32768:0", "2100.5:0", "2100:604800000"};
  int k = (int)c.choose(29, "argument"), where = (int)c.choose(4, "other options"); std::vector<std::string> o; if (where == 1) o = W0; if (where == 3) o.push_back("-G"); give(o, 'w', X[k], X[k][0] ? 1 : 0); if (where == 2) o.insert(o.end(), W0.begin(), W0.end()); Conf f = timed(); f.refused = true; expect(c, f, o, small());
}
static int64_t civil(int y, int m, int d) { int64_t n = 0; for (int k = 1980; k < y; k++) n += 365 + (k % 4 == 0 && (k % 100 || k % 400 == 0)); static const int D[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; for (int k = 1; k < m; k++) n += D[k - 1] + (k == 2 && y % 4 == 0 && (y % 100 || y % 400 == 0)); return n + d - 6; }
static int month_days(int y, int m) { static const int D[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return D[m - 1] + (m == 2 && y % 4 == 0 && (y % 100 || y % 400 == 0)); }
static void dates(Ctx &c) {
  static const int Y[] = {2024, 2023, 2016, 2017, 2018, 2020, 2100, 2019, 1979, 1900, 0, -5, 24}; static const int H[] = {0, 12, 23, 24, -1, 99, 1, 25}; int y = Y[c.choose(13, "year")], m = (int)c.choose(16, "month") - 1, d = (int)c.choose(35, "day") - 1, h = H[c.choose(8, "hour")];
  bool ok = y >= 1980 && m >= 1 && m <= 12 && d >= 1 && d <= month_days(y, m) && h >= 0 && h < 24; int64_t now = ok ? (civil(y, m, d) * 24 + h) * 3600000ll : 0; if (ok && now < 0) ok = false; if (ok && now < 1876 * WEEK) return;      // before the reference week: not judged
  std::vector<std::string> o = {"-d", fmt(d % 2 ? "%d:%d:%d:%d" : "%d:%02d:%02d:%02d", y, m, d, h)}; if (ok) { want_time(c, now, o); return; } Conf f = timed(); f.refused = true; expect(c, f, o, small());
}
// -s: the time is that of the system; -t shows it and converts nothing
static void clocks(Ctx &c) {
  static const int Y[] = {2016, 2019, 2020, 2024, 2026, 2037}; static const int D[] = {1, 2, 3, 4, 5, 6, 7, 15, 28}; static const int S[] = {0, 60, 3600, 43199, 43200, 86399}; int y = Y[c.choose(6, "year")], m = 1 + (int)c.choose(12, "month"), d = D[c.choose(9, "day")], sec = S[c.choose(6, "second of the day")], how = (int)c.choose(6, "options"); c.leaf();
  int64_t days = civil(y, m, d), unix_s = 315964800 + days * 86400 + sec; int64_t now = (days * 86400 + sec + 18) * 1000; struct Set { Set(time_t t) { clock_says = t; } ~Set() { clock_says = 0; } } set((time_t)unix_s);
  switch (how) {
    case 0: want_time(c, now, {"-s"}); return;
    case 1: want_time(c, now, {"-s", "-v"}); return;
    case 2: { std::vector<std::string> o = W0; o.push_back("-s"); want_time(c, now, o); return; }
    case 3: { std::vector<std::string> o = {"-s"}; o.insert(o.end(), W0.begin(), W0.end()); want_time(c, T0, o); return; }
    case 4: { Conf f = timed(); f.now = now; f.obs = true; expect(c, f, d % 2 ? std::vector<std::string>{"-s", "-o"} : std::vector<std::string>{"-os"}, around(now)); return; }
    default: {
      char *text = nullptr; size_t len = 0; shows = open_memstream(&text, &len); pin.clear(); Conf f; f.nothing = true; Stream st = around(now); int rc = program({"-t"}, st.b); fclose(shows); shows = nullptr; std::string t(text, len); free(text); c.step(); int w = -1; double tow = -1; int n = sscanf(t.c_str(), "%d:%lf", &w, &tow);
      CHK(c, rc == 0 && n == 2 && sent.empty() && ppos == 0, "-t at %lld: code %d, '%s', %zu messages, %zu bytes read", (long long)unix_s, rc, t.c_str(), sent.size(), ppos); CHK(c, std::fabs((double)w * 604800 + tow - (double)now / 1000) <= 60, "-t at %lld shows '%s' instead of %lld:%lld", (long long)unix_s, t.c_str(), (long long)(now / WEEK), (long long)(now % WEEK / 1000)); c.state(mix((uint64_t)unix_s, 9)); return;
    }
  }
}
static void wrong_dates(Ctx &c) {
  static const char *X[] = {"", ":", "2024", "2024:1", "2024:1:1", "2024:1:1:", "x:1:1:1", "2024:Jan:1:0", "2024-01-01:0", "2024/1/1/0", "1:1:2024:0", "2024:0:0:0", "2024:1:1:x", "2023:2:29:0", "-2024:1:1:0"}; int k = (int)c.choose(15, "argument"), where = (int)c.choose(4, "other options"); std::vector<std::string> o; if (where == 1) o = W0; if (where == 3) o.push_back("-o"); give(o, 'd', X[k], 0); if (where == 2) o.insert(o.end(), W0.begin(), W0.end()); Conf f = timed(); f.refused = true; expect(c, f, o, small());
}
// the observations or the ephemerides as the source of time
static Bytes gps_eph(int wn, uint32_t toe) { auto s = rtcmref::m1019(); auto r = s.defaults(); for (size_t i = 0; i < s.f.size(); i++) { if (s.f[i].name == "week") r[i] = wn % 1024; if (s.f[i].name == "toe" || s.f[i].name == "toc") r[i] = toe / 16; if (s.f[i].name == "health") r[i] = 0; } return s.bytes(r); }
static void sources(Ctx &c) {
  int o_first = (int)c.choose(3, "-o"); int n = 6; static const int64_t STEP[] = {1000, 86400000, 3 * 86400000ll, 300000000, 2 * 86400000ll}; int64_t step = STEP[c.choose(5, "interval")]; int cons = (int[]){GPS, GAL, BDS}[c.choose(3, "constellation")], start = (int)c.choose(4, "first time"); bool eph = c.choose(2, "ephemeris"); int how_time = (int)c.choose(2, "time option");
  int64_t t = T0 + (int64_t[]){0, 100000000, 200000000, -100000000}[start]; Stream s; for (int k = 0; k < n; k++) { if (eph && k == 1) append(s.b, rtcm_frame(gps_eph(2100, 329600))); int64_t x = t + k * step; if (x % WEEK == 0) x += 2000; s.add(msm(cons, 5, raw_time(cons, x), bit(5), false, false)); }
  // the ephemeris is older than the time given: time never runs backwards
  Conf f = timed(); f.obs = o_first; std::vector<std::string> o; if (o_first == 1) o.push_back("-o"); if (how_time) { o.push_back("-d"); o.push_back("2020:4:9:0"); } else o.insert(o.end(), W0.begin(), W0.end()); if (o_first == 2) o.push_back("-o"); expect(c, f, o, s);
}
// a newer ephemeris moves the time unless observations are its source
static void newer(Ctx &c) {
  bool obs = c.choose(2, "-o"); static const int64_t H = 3600000; int64_t ahead = (1 + (int)c.choose(41, "ephemeris ahead")) * 2 * H, off = ((int)c.choose(80, "observations ahead") - 0) * 2 * H + H / 2; int before = (int)c.choose(2, "epochs before"); int64_t t = T0; std::vector<Epoch> want; Bytes b; int64_t now = t;
  auto epoch = [&](int64_t x) { if (x % WEEK == 0) x += 1000; Msg m = msm(GPS, 4, raw_time(GPS, x), bit(5), false, false); append(b, rtcm_frame(m.bytes())); int64_t y = x % WEEK; while (y < now - WEEK / 2) y += WEEK; Epoch e; e.sender = conv::sender(9); e.wn = (int)(y / WEEK); e.tow = (uint32_t)(y % WEEK); e.cells = cells(m, std::vector<int>(64, -1)); want.push_back(e); if (obs) now = y; };
  if (before) epoch(t + 1000); append(b, rtcm_frame(gps_eph((int)((t + ahead) / WEEK), (uint32_t)((t + ahead) % WEEK / 1000)))); if (!obs) now = t + ahead; epoch(t + off); epoch(t + off + 1000);
  std::vector<std::string> o = W0; if (obs) o.push_back("-o"); std::string how = line(o) + fmt(" with an ephemeris %lld hours ahead", (long long)(ahead / H)); c.at("%s", how.c_str()); int rc = program(o, b); c.step(); CHK(c, rc == 0, "%s ends with %d", how.c_str(), rc); Model m(2100, 345600000, 18); m.out = want; static R2S r; r.out.clear(); r.out.swap(sent); compare(c, m, r, how.c_str());
}
static void untimed(Ctx &c) {
  int k = (int)c.choose(8, "options"); static const std::vector<std::vector<std::string>> O = {{}, {"-G"}, {"-v"}, {"-b", "0:5"}, {"-o"}, {"-G", "-o"}, {"-o", "-b", "0:5"}, {"-ov"}}; Conf f; for (auto &x : O[(size_t)k]) if (x == "-o" || x == "-ov") f.refused = true; expect(c, f, O[(size_t)k], c.choose(2, "stream") ? everything() : small());
}
// ------------------------------------------------------------------ all of them together
struct Opt { std::vector<std::string> a; std::function<void(Conf &)> f; };
static const std::vector<Opt> &options() {
  static std::vector<Opt> v; if (!v.empty()) return v;
  for (int i = 0; i < 6; i++) v.push_back({{std::string("-") + LET[i]}, [i](Conf &f) { f.masked |= 1u << i; }});
  v.push_back({W0, [](Conf &f) { f.timed = true; f.now = T0; }}); v.push_back({{"-w=2099:500000"}, [](Conf &f) { f.timed = true; f.now = 2099 * WEEK + 500000000; }}); v.push_back({{"-d2020:4:9:0"}, [](Conf &f) { f.timed = true; f.now = T0; }});
  v.push_back({{"-b", "0:5.5,12:-3"}, [](Conf &f) { f.bias[0] = 5.5; f.bias[12] = -3; }}); v.push_back({{"-b", "0:-1"}, [](Conf &f) { f.bias[0] = -1; }}); v.push_back({{"-c", "3:1.5"}, [](Conf &f) { f.cb[0] = 1.5; }}); v.push_back({{"-l4:0.25"}, [](Conf &f) { f.pb[1] = 0.25; }}); v.push_back({{"-c4:-2,3:1"}, [](Conf &f) { f.cb[1] = -2; f.cb[0] = 1; }});
  v.push_back({{"-o"}, [](Conf &f) { f.obs = true; }}); v.push_back({{"-v"}, [](Conf &) {}}); v.push_back({{"-x"}, [](Conf &f) { f.loose = true; }}); v.push_back({{"-d", "2020:13:1:0"}, [](Conf &f) { f.refused = true; }}); v.push_back({{"-h"}, [](Conf &f) { f.nothing = true; }}); v.push_back({{"-GS"}, [](Conf &f) { f.masked |= 33; }});
  return v;
}
static void together(Ctx &c) {
  auto &v = options(); int len = c.thorough ? 5 : 4; Conf f; std::vector<std::string> o; bool timed_first = c.choose(2, "a time first"); if (timed_first) { v[6].f(f); o = W0; }
  for (int i = 0; i < len; i++) { auto &x = v[c.choose((uint32_t)v.size(), "option")]; o.insert(o.end(), x.a.begin(), x.a.end()); if (f.nothing || f.refused) continue; x.f(f); }
  if (f.obs && !f.timed && !f.nothing) f.refused = true; if (f.nothing) f.refused = false;

  if (f.obs && f.timed && f.now != T0 && f.masked) return;          // epochs whose measurements are all left out also move the time
  expect(c, f, o, everything());
}
// arguments that are no options, and options without their argument
static void stray(Ctx &c) {
  static const std::vector<std::vector<std::string>> X = {{"file"}, {"-"}, {"--"}, {"-I"}, {"-z"}, {"-GzR"}, {"--help"}, {"-1"}, {"-S", "file"}, {"-S", "-G"}, {"-SG"}, {"-b"}, {"-c"}, {"-l"}, {"-d"}, {"-t"}, {"-h"}, {"-G", "-h"}, {"-vv", "-R"}};
  size_t k = c.choose((uint32_t)X.size(), "arguments"); bool after = c.choose(2, "after the time") || k >= 11; std::vector<std::string> o; if (after) o = W0; o.insert(o.end(), X[k].begin(), X[k].end()); if (!after) o.insert(o.end(), W0.begin(), W0.end());
  Conf f = timed(); if (k == 2 && !after) return; f.loose = k <= 7 || (k >= 11 && k <= 14); if (k == 5) f.masked = MG | MR; if (k == 8) f.masked = MS; if (k == 9 || k == 10) f.masked = MS | MG; if (k == 17) f.masked = MG; if (k == 18) f.masked = MR; f.nothing = k == 15 || k == 16 || k == 17;
  if (k == 6) { std::string how = line(o); program(o, everything().b); return; }         // "-h" of "--help" may be taken for the option
  expect(c, f, o, everything());
}
int main(int argc, char **argv) {
  Spec s; s.property = "C33";
  s.rule = "the program run on streams holding every constellation and signal, under every set of disabled constellations written in six ways, every bias of every signal, pairs of biases, lists of 1-3 (4) of 26 right and wrong entries, every text of up to 6 (8) characters over an eight-letter alphabet as a bias list, weeks, times of week and calendar dates right and wrong, both sources of time, and every sequence of 4 (5) of 20 options; compared with a model of the observations under the configuration the options denote";
  s.assumptions = {"a time given on the command line is judged to two minutes", "options the program does not know, missing arguments and empty list entries may be refused or passed over", "the clock of the system is read with time, clock_gettime or gettimeofday"};
  s.scenarios = {{"masks", masks}, {"biases", biases}, {"pairs", pairs}, {"lists", lists}, {"texts", texts}, {"weeks", weeks}, {"wrong-weeks", wrong_weeks}, {"dates", dates}, {"clocks", clocks}, {"wrong-dates", wrong_dates}, {"sources", sources}, {"newer", newer}, {"untimed", untimed}, {"together", together}, {"stray", stray}};
  return run(argc, argv, s);
}
