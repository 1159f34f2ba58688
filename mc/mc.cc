#include "mc.hpp"
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {
using Clock = std::chrono::steady_clock;
static double now() { return std::chrono::duration<double>(Clock::now().time_since_epoch()).count(); }

struct Shared {
  std::atomic<uint32_t> npoints;
  std::atomic<uint32_t> scenario;
  std::atomic<uint64_t> execs;
  std::atomic<uint32_t> status;   // 0 idle, 1 running, 2 violation
  std::atomic<uint32_t> unit;     // current unit + 1, 0 none
  std::atomic<uint32_t> nunits;   // units taken by this worker process, in order
  uint32_t unit_log[4096];
  char at[256];
  char sig[256];
  char msg[2048];
  Point points[MAX_POINTS];
};

uint32_t Ctx::pick(uint32_t n, uint32_t is_dev, const char *label) {
  size_t i = points.size();
  if (i >= MAX_POINTS || n == 0) { fprintf(stderr, "mc: harness error: %s\n", n ? "too many points" : "empty choice"); _exit(98); }
  uint32_t c = i < prefix.size() ? prefix[i] : 0;
  if (c >= n) { fprintf(stderr, "mc: replay diverged at point %zu (%u of %u)\n", i, c, n); _exit(98); }
  points.push_back({c, n, is_dev});
  if (is_dev && c) cost_++;
  if (sh) { sh->points[i] = points.back(); sh->npoints.store((uint32_t)i + 1, std::memory_order_relaxed); }
  if (logging && label) note("%s=%u/%u", label, c, n);
  return c;
}
static void put(char *dst, size_t n, const std::string &s) { size_t k = s.size() < n - 1 ? s.size() : n - 1; memcpy(dst, s.data(), k); dst[k] = 0; }
// what is printed is plain text, whatever the code under test produced
static void plain(char *b) { for (; *b; b++) if ((*b < ' ' && *b != '\n' && *b != '\t') || *b == 0x7F) *b = '?'; }
void Ctx::fail(const std::string &sig, const char *f, ...) {
  char buf[2000]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap); plain(buf);
  if (known) for (auto &k : *known) if (k == sig) { known_hit.push_back(sig); return; }
  throw Violation{sig, buf};
}
void Ctx::check(bool ok, const char *f, ...) {
  if (ok) return;
  char buf[2000]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap); plain(buf);
  throw Violation{"mismatch", buf};
}
void Ctx::note(const char *f, ...) {
  if (!logging) return;
  char buf[2000]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap); plain(buf);
  if (log.size() < 20000) { log += buf; log += '\n'; }
}
void Ctx::at(const char *f, ...) {
  char buf[256]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
  if (sh) memcpy(sh->at, buf, sizeof buf);
  if (logging) note("at %s", buf);
}

static void *shm(size_t n) {
  void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(99); }
  return p;
}

static void reset(Ctx &c) { c.points.clear(); c.cost_ = 0; c.obs = 0; }

// next choice sequence in odometer order that keeps `keep` leading choices; false when exhausted
static bool advance(std::vector<Point> &pts, size_t keep, int bound, std::vector<uint32_t> &prefix) {
  std::vector<int> before(pts.size() + 1, 0);
  for (size_t i = 0; i < pts.size(); i++) before[i + 1] = before[i] + (pts[i].is_dev && pts[i].choice ? 1 : 0);
  for (size_t i = pts.size(); i-- > keep;) {
    if (pts[i].choice + 1 < pts[i].n && (!pts[i].is_dev || before[i] + 1 <= bound)) {
      prefix.resize(i + 1);
      for (size_t j = 0; j < i; j++) prefix[j] = pts[j].choice;
      prefix[i] = pts[i].choice + 1;
      return true;
    }
  }
  return false;
}

struct Unit { uint32_t scenario; std::vector<uint32_t> prefix; };

static int scen_bound(const Scenario &s, bool thorough) { return thorough ? s.bound_thorough : s.bound_quick; }

struct Result {
  bool violation = false; std::string sig, msg; bool crashed = false; bool hung = false; int status = 0;
};

// one execution in a forked child, optionally after the executions of `history` (units explored
// before it in the same process; the last of them only up to `prefix`).
static Result run_isolated(const Spec &spec, uint32_t scen, const std::vector<uint32_t> &prefix, bool thorough, int limit_s,
                           std::string *log, uint64_t *obs, bool quiet, const std::vector<Unit> *history = nullptr) {
  Shared *sh = (Shared *)shm(sizeof(Shared));
  int pfd[2]; if (pipe(pfd)) { perror("pipe"); _exit(99); }
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(pfd[0]);
    if (quiet) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); }
    Ctx c; c.thorough = thorough; c.sh = sh; c.logging = log != nullptr; c.prefix = prefix;
    c.bound_ = scen_bound(spec.scenarios[scen], thorough);
    try {
      if (!history) spec.scenarios[scen].body(c);
      else for (size_t h = 0; h < history->size(); h++) {
        const Unit &u = (*history)[h]; int bound = scen_bound(spec.scenarios[u.scenario], thorough);
        std::vector<uint32_t> pf = u.prefix; bool more = true; c.bound_ = bound;
        while (more) {
          c.prefix = pf; reset(c); sh->npoints = 0;
          spec.scenarios[u.scenario].body(c);
          if (h + 1 == history->size()) {
            bool same = c.points.size() == prefix.size();
            for (size_t i = 0; same && i < prefix.size(); i++) same = c.points[i].choice == prefix[i];
            if (same) break;
          }
          more = advance(c.points, u.prefix.size(), bound, pf);
        }
      }
    }
    catch (const Violation &v) { put(sh->sig, sizeof sh->sig, v.sig); put(sh->msg, sizeof sh->msg, v.msg); sh->status = 2; }
    uint64_t o = c.obs; std::string out((const char *)&o, 8); out += c.log;
    size_t off = 0; while (off < out.size()) { ssize_t w = write(pfd[1], out.data() + off, out.size() - off); if (w <= 0) break; off += (size_t)w; }
    _exit(0);
  }
  close(pfd[1]);
  Result r; double t0 = now(); int st = 0; std::string got; char buf[65536];
  fcntl(pfd[0], F_SETFL, O_NONBLOCK);
  for (;;) {
    ssize_t k; while ((k = read(pfd[0], buf, sizeof buf)) > 0) got.append(buf, (size_t)k);
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) { while ((k = read(pfd[0], buf, sizeof buf)) > 0) got.append(buf, (size_t)k); break; }
    if (now() - t0 > limit_s) { kill(pid, SIGKILL); waitpid(pid, &st, 0); r.hung = true; break; }
    usleep(1000);
  }
  close(pfd[0]);
  r.status = st;
  if (r.hung) { r.violation = true; r.sig = std::string("hang:") + sh->at; r.msg = fmt("no answer within %d s at: %s", limit_s, sh->at); }
  else if (sh->status == 2) { r.violation = true; r.sig = sh->sig; r.msg = sh->msg; }
  else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    r.violation = true; r.crashed = true; r.sig = std::string("crash:") + sh->at;
    r.msg = fmt("process died (%s %d) at: %s", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), sh->at);
  }
  if (got.size() >= 8) { if (obs) memcpy(obs, got.data(), 8); if (log) *log = got.substr(8); }
  munmap(sh, sizeof(Shared));
  return r;
}

static std::string json_str(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) o += fmt("\\u%04x", ch);
    else o += (char)ch;
  }
  return o + "\"";
}

static std::vector<std::string> load_known(const std::string &path, const char *prop) {
  std::vector<std::string> v; FILE *f = fopen(path.c_str(), "r"); if (!f) return v;
  char line[1024]; std::string pfx = std::string("known: property=") + prop + " sig=";
  while (fgets(line, sizeof line, f)) {
    std::string s(line); while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
    if (s.rfind(pfx, 0) == 0) { s = s.substr(pfx.size()); size_t p = s.find(" -- "); if (p != std::string::npos) s = s.substr(0, p); v.push_back(s); }
  }
  fclose(f); return v;
}

static void ensure_dir(const std::string &d) { mkdir(d.c_str(), 0755); }

static int do_replay(const Spec &spec, const std::string &path) {
  FILE *f = fopen(path.c_str(), "r"); if (!f) { perror(path.c_str()); return 2; }
  char line[1 << 16]; std::string scen; std::vector<uint32_t> prefix; bool thorough = false;
  while (fgets(line, sizeof line, f)) {
    std::string s(line);
    if (s.rfind("scenario ", 0) == 0) { scen = s.substr(9); while (!scen.empty() && scen.back() < 33) scen.pop_back(); }
    else if (s.rfind("tier thorough", 0) == 0) thorough = true;
    else if (s.rfind("choices", 0) == 0) { char *p = line + 7; while (*p) { char *e; unsigned long v = strtoul(p, &e, 10); if (e == p) break; prefix.push_back((uint32_t)v); p = e; } }
  }
  rewind(f); std::vector<Unit> hist;
  while (fgets(line, sizeof line, f)) if (!strncmp(line, "history ", 8)) {
    char nm[256]; int k = 0; sscanf(line + 8, "%255s%n", nm, &k); Unit u; u.scenario = 0;
    for (uint32_t i = 0; i < spec.scenarios.size(); i++) if (!strcmp(nm, spec.scenarios[i].name)) u.scenario = i;
    char *p = line + 8 + k; while (*p) { char *e; unsigned long v = strtoul(p, &e, 10); if (e == p) break; u.prefix.push_back((uint32_t)v); p = e; }
    hist.push_back(u);
  }
  fclose(f);
  for (uint32_t i = 0; i < spec.scenarios.size(); i++) if (scen == spec.scenarios[i].name) {
    std::string log; uint64_t obs = 0;
    Result r = run_isolated(spec, i, prefix, thorough, 300, &log, &obs, false, hist.empty() ? nullptr : &hist);
    printf("%s", log.c_str());
    if (r.violation) { printf("REPRODUCED property=%s %s: %s\n", spec.property, r.sig.c_str(), r.msg.c_str()); return 1; }
    printf("no violation\n"); return 0;
  }
  fprintf(stderr, "unknown scenario %s\n", scen.c_str()); return 2;
}

int run(int argc, char **argv, const Spec &spec) {
  setenv("TZ", "UTC", 1);
  std::string evdir = "evidence", repdir = "build/replays", known_path = "known_findings.txt", only;
  bool thorough = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
  bool verbose = false;
  int jobs = (int)sysconf(_SC_NPROCESSORS_ONLN); if (jobs < 1) jobs = 1; if (jobs > 16) jobs = 16;
  double cap = thorough ? 3600 : 700; long seed = getenv("VERIF_SEED") ? atol(getenv("VERIF_SEED")) : 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--replay" && i + 1 < argc) return do_replay(spec, argv[i + 1]);
    else if (a == "--thorough") thorough = true;
    else if (a == "--quick") thorough = false;
    else if (a == "-v") verbose = true;
    else if (a == "-j" && i + 1 < argc) jobs = atoi(argv[++i]);
    else if (a == "--only" && i + 1 < argc) only = argv[++i];
    else if (a == "--cap" && i + 1 < argc) cap = atof(argv[++i]);
    else if (a == "--evidence" && i + 1 < argc) evdir = argv[++i];
  }
  double t0 = now();
  ensure_dir(evdir); ensure_dir("build"); ensure_dir(repdir);
  auto known = load_known(known_path, spec.property);
  std::vector<uint32_t> scens;
  for (uint32_t i = 0; i < spec.scenarios.size(); i++)
    if ((thorough || !spec.scenarios[i].thorough_only) && (only.empty() || only == spec.scenarios[i].name)) scens.push_back(i);

  // ---- split the trees into units (prefixes); the probing child may die, then what it found is used
  std::vector<Unit> units; unsigned probe_limit = 60;
  for (uint32_t s : scens) {
    int bound = scen_bound(spec.scenarios[s], thorough);
    std::vector<std::vector<uint32_t>> done, todo = {{}};
    int rounds = 0;
    while (!todo.empty() && rounds++ < 3 && done.size() + todo.size() < 48) {
      // expand each prefix in todo by one point
      size_t n = todo.size();
      struct Info { uint32_t n, is_dev, cost, ok; };
      Info *inf = (Info *)shm(sizeof(Info) * n + 4096);
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) {
        int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1);
        alarm(probe_limit);
        for (size_t i = 0; i < n; i++) {
          Ctx c; c.thorough = thorough; c.prefix = todo[i]; c.bound_ = bound; c.known = &known; c.probing = true;
          try { spec.scenarios[s].body(c); } catch (const Violation &) {}
          if (c.points.size() > todo[i].size()) {
            int cost = 0; for (size_t k = 0; k < todo[i].size(); k++) cost += c.points[k].is_dev && c.points[k].choice;
            inf[i] = {c.points[todo[i].size()].n, c.points[todo[i].size()].is_dev, (uint32_t)cost, 1};
          } else inf[i] = {0, 0, 0, 1};
        }
        _exit(0);
      }
      int st; waitpid(pid, &st, 0);
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { probe_limit = 5; rounds = 3; }   // something hangs: split no further, the workers will find it
      std::vector<std::vector<uint32_t>> next;
      for (size_t i = 0; i < n; i++) {
        if (!inf[i].ok || inf[i].n == 0) { done.push_back(todo[i]); continue; }
        uint32_t lim = inf[i].n; if (inf[i].is_dev && (int)inf[i].cost >= bound) lim = 1;
        for (uint32_t k = 0; k < lim; k++) { auto p = todo[i]; p.push_back(k); next.push_back(p); }
      }
      munmap(inf, sizeof(Info) * n + 4096);
      todo.swap(next);
    }
    for (auto &p : done) units.push_back({s, p});
    for (auto &p : todo) units.push_back({s, p});
  }

  // ---- workers
  struct Global { std::atomic<uint32_t> next; std::atomic<uint32_t> stop; };
  Global *g = (Global *)shm(sizeof(Global));
  struct Tot { std::atomic<uint64_t> execs, trans, traces, maxpoints; };
  Tot *tot = (Tot *)shm(sizeof(Tot) * (spec.scenarios.size() + 1));
  std::vector<Shared *> sh(jobs); for (auto &p : sh) p = (Shared *)shm(sizeof(Shared));
  char tmpl[] = "/tmp/mcXXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
  std::string tmp = tmpl;
  std::vector<pid_t> pids(jobs, 0); std::vector<int> gen(jobs, 0);
  std::vector<uint64_t> last_exec(jobs, 0); std::vector<double> last_t(jobs, now());

  auto worker = [&](int w, bool resume, Unit ru, std::vector<uint32_t> rprefix) {
    int fd = open((tmp + fmt("/err%d", w)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2);
    int fo = open("/dev/null", O_WRONLY); dup2(fo, 1);
    Ctx c; c.thorough = thorough; c.sh = sh[w]; c.known = &known;
    auto dump = [&]() {
      std::string p = tmp + fmt("/st%d.%d", w, gen[w]);
      FILE *f = fopen(p.c_str(), "wb");
      for (uint64_t h : c.states) fwrite(&h, 8, 1, f);
      fclose(f);
      if (!c.known_hit.empty()) {
        std::set<std::string> u(c.known_hit.begin(), c.known_hit.end());
        FILE *k = fopen((tmp + fmt("/kn%d.%d", w, gen[w])).c_str(), "w");
        for (auto &s : u) fprintf(k, "%s\n", s.c_str());
        fclose(k);
      }
    };
    auto do_unit = [&](const Unit &u, std::vector<uint32_t> prefix) {
      int bound = scen_bound(spec.scenarios[u.scenario], thorough);
      c.bound_ = bound; sh[w]->scenario = u.scenario;
      uint64_t ex = 0, tr0 = c.transitions, tc0 = c.traces, mp = 0;
      bool more = true;
      while (more && !g->stop.load(std::memory_order_relaxed)) {
        c.prefix = prefix; reset(c); sh[w]->npoints = 0; sh[w]->status = 1;
        try { spec.scenarios[u.scenario].body(c); }
        catch (const Violation &v) {
          put(sh[w]->sig, sizeof sh[w]->sig, v.sig); put(sh[w]->msg, sizeof sh[w]->msg, v.msg);
          sh[w]->status = 2; dump(); _exit(3);
        }
        ex++; sh[w]->execs.fetch_add(1, std::memory_order_relaxed);
        if (c.points.size() > mp) mp = c.points.size();
        if ((ex & 1023) == 0) { tot[u.scenario].execs += 1024; }
        more = advance(c.points, u.prefix.size(), bound, prefix);
      }
      tot[u.scenario].execs += ex & 1023; tot[u.scenario].trans += c.transitions - tr0; tot[u.scenario].traces += c.traces - tc0;
      uint64_t o = tot[u.scenario].maxpoints; while (mp > o && !tot[u.scenario].maxpoints.compare_exchange_weak(o, mp)) {}
      sh[w]->status = 0;
    };
    if (resume) do_unit(ru, rprefix);
    for (;;) {
      uint32_t i = g->next++; if (i >= units.size() || g->stop) break;
      sh[w]->unit = i + 1;
      if (sh[w]->nunits < 4096) { sh[w]->unit_log[sh[w]->nunits] = i; sh[w]->nunits++; }
      do_unit(units[i], units[i].prefix);
    }
    dump(); _exit(0);
  };
  auto spawn = [&](int w, bool resume, const Unit &ru, const std::vector<uint32_t> &rp) {
    fflush(nullptr);
    gen[w]++;
    sh[w]->nunits = 0;
    if (resume && sh[w]->unit) { sh[w]->unit_log[0] = sh[w]->unit - 1; sh[w]->nunits = 1; }
    pid_t pid = fork(); if (pid < 0) { perror("fork"); _exit(99); }
    if (pid == 0) worker(w, resume, ru, rp);
    pids[w] = pid; last_t[w] = now();
  };
  for (int w = 0; w < jobs; w++) spawn(w, false, Unit(), {});

  bool capped = false; std::set<std::string> known_seen; int crashes_known = 0;
  struct Found { uint32_t scen; std::vector<uint32_t> choices; std::string sig, msg; std::vector<Unit> hist; };
  std::vector<Found> found; bool infra_error = false; std::string infra;
  auto read_err = [&](int w) { std::string s; FILE *f = fopen((tmp + fmt("/err%d", w)).c_str(), "r"); if (f) { char b[6000]; size_t k = fread(b, 1, sizeof b - 1, f); s.assign(b, k); fclose(f); } return s; };
  std::string first_err;
  int live = jobs;
  while (live > 0) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p <= 0) {
      usleep(2000);
      if (!capped && now() - t0 > cap) { capped = true; g->stop = 1; }
      for (int w = 0; w < jobs; w++) if (pids[w]) {
        uint64_t e = sh[w]->execs; if (e != last_exec[w]) { last_exec[w] = e; last_t[w] = now(); }
        else if (now() - last_t[w] > 30) { kill(pids[w], SIGKILL); last_t[w] = now() + 1e9; }
      }
      continue;
    }
    int w = -1; for (int i = 0; i < jobs; i++) if (pids[i] == p) w = i;
    if (w < 0) continue;
    pids[w] = 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { live--; continue; }
    // died inside an execution
    std::vector<Point> pts(sh[w]->points, sh[w]->points + sh[w]->npoints.load());
    std::vector<uint32_t> ch; for (auto &q : pts) ch.push_back(q.choice);
    uint32_t s = sh[w]->scenario;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 99)) { infra_error = true; infra = read_err(w); g->stop = 1; live--; continue; }
    if (g->stop) { live--; continue; }
    std::string err = read_err(w);
    Result r = run_isolated(spec, s, ch, thorough, 60, nullptr, nullptr, true);
    std::vector<Unit> hist;
    if (!r.violation) {   // depends on what ran before it in that process (hidden shared state)
      hist = {units[sh[w]->unit - 1]};
      r = run_isolated(spec, s, ch, thorough, 300, nullptr, nullptr, true, &hist);
      if (!r.violation) {
        hist.clear(); for (uint32_t i = 0; i < sh[w]->nunits; i++) hist.push_back(units[sh[w]->unit_log[i]]);
        r = run_isolated(spec, s, ch, thorough, 300, nullptr, nullptr, true, &hist);
      }
      if (r.violation) r.msg += " [only after earlier executions in the same process: state is shared between independent runs]";
    }
    if (!r.violation) { infra_error = true; infra = fmt("a violation of scenario %s did not reproduce alone: %s", spec.scenarios[s].name, sh[w]->msg) + err; g->stop = 1; live--; continue; }
    bool is_known = false;
    for (auto &k : known) if (k == r.sig) is_known = true;
    if (is_known) {
      known_seen.insert(r.sig); crashes_known++;
      Unit u = units[sh[w]->unit - 1]; std::vector<uint32_t> np;
      if (advance(pts, u.prefix.size(), scen_bound(spec.scenarios[s], thorough), np)) spawn(w, true, u, np);
      else { spawn(w, false, Unit(), {}); }
      continue;
    }
    found.push_back({s, ch, r.sig, r.msg, hist});
    if (first_err.empty()) first_err = err;
    g->stop = 1; live--;
  }
  // ---- merge
  std::unordered_set<uint64_t> all;
  for (int w = 0; w < jobs; w++) for (int k = 1; k <= gen[w]; k++) {
    std::string p = tmp + fmt("/st%d.%d", w, k);
    if (FILE *f = fopen(p.c_str(), "rb")) { uint64_t buf[4096]; size_t n; while ((n = fread(buf, 8, 4096, f)) > 0) for (size_t i = 0; i < n; i++) all.insert(buf[i]); fclose(f); unlink(p.c_str()); }
    std::string q = tmp + fmt("/kn%d.%d", w, k);
    if (FILE *f = fopen(q.c_str(), "r")) { char line[512]; while (fgets(line, sizeof line, f)) { std::string t(line); while (!t.empty() && t.back() < 33) t.pop_back(); known_seen.insert(t); } fclose(f); unlink(q.c_str()); }
    unlink((tmp + fmt("/err%d", w)).c_str());
  }
  rmdir(tmp.c_str());
  uint64_t execs = 0, trans = 0, traces = 0;
  for (uint32_t s : scens) { execs += tot[s].execs; trans += tot[s].trans; traces += tot[s].traces; }

  // ---- samples, replayed twice for determinism
  std::string samples; int ns = 0; bool nondet = false;
  if (found.empty() && !infra_error) {
    for (uint32_t s : scens) {
      std::vector<const Unit *> us; for (auto &u : units) if (u.scenario == s) us.push_back(&u);
      if (us.empty() || ns >= 8) continue;
      const Unit *u = us[us.size() / 2];
      std::string l1, l2; uint64_t o1 = 0, o2 = 0;
      run_isolated(spec, s, u->prefix, thorough, 60, &l1, &o1, true);
      run_isolated(spec, s, u->prefix, thorough, 60, &l2, &o2, true);
      if (o1 != o2) { nondet = true; infra = fmt("scenario %s: two runs of one choice list differ", spec.scenarios[s].name); }
      std::string pc; for (auto x : u->prefix) pc += fmt("%u ", x);
      if (l1.size() > 1500) l1 = l1.substr(0, 1500) + "...";
      samples += (ns ? ",\n    " : "\n    ") + json_str(fmt("scenario %s, leading choices [ %s], then defaults: ", spec.scenarios[s].name, pc.c_str()) + l1);
      ns++;
    }
  }
  double wall = now() - t0;
  std::string per;
  for (uint32_t s : scens) {
    if (!per.empty()) per += ",\n    ";
    per += json_str(spec.scenarios[s].name) + fmt(": {\"executions\": %" PRIu64 ", \"transitions\": %" PRIu64 ", \"deviation_bound\": %d, \"max_choice_points\": %" PRIu64 "}",
                                                   tot[s].execs.load(), tot[s].trans.load(), scen_bound(spec.scenarios[s], thorough), tot[s].maxpoints.load());
  }
  std::string ass; for (auto &a : spec.assumptions) ass += (ass.empty() ? "" : ", ") + json_str(a);
  std::string ev = evdir + "/" + spec.property + ".json";
  if (FILE *f = fopen(ev.c_str(), "w")) {
    fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %ld,\n \"level\": \"model_checking\",\n \"coverage\": {\n  \"states\": %zu,\n  \"transitions\": %" PRIu64
               ",\n  \"traces_validated_against_impl\": %" PRIu64 ",\n  \"executions\": %" PRIu64 ",\n  \"exhaustive\": %s,\n  \"rule\": %s,\n  \"scenarios\": {\n    %s\n  },\n  \"known_findings_seen\": %zu,\n  \"samples\": [%s\n  ]\n },\n \"assumptions\": [%s],\n \"wall_s\": %.2f,\n \"violations\": %zu\n}\n",
            spec.property, thorough ? "thorough" : "quick", seed, all.size(), trans, traces, execs, (capped || !found.empty() || infra_error) ? "false" : "true",
            json_str(spec.rule).c_str(), per.c_str(), known_seen.size(), samples.c_str(), ass.c_str(), wall, found.size());
    fclose(f);
  }
  for (uint32_t s : scens)
    if (verbose) printf("  %-28s execs=%-10" PRIu64 " steps=%-10" PRIu64 " points<=%" PRIu64 "\n", spec.scenarios[s].name, tot[s].execs.load(), tot[s].trans.load(), tot[s].maxpoints.load());
  printf("%s: executions=%" PRIu64 " states=%zu transitions=%" PRIu64 " traces=%" PRIu64 " wall=%.1fs%s\n", spec.property, execs, all.size(), trans, traces, wall, capped ? " (TIME CAP HIT)" : "");
  for (auto &k : known_seen) printf("KNOWN-FINDING: property=%s %s\n", spec.property, k.c_str());
  if (!found.empty()) {
    auto &v = found[0];
    std::string rp = repdir + "/" + spec.property + "_" + spec.scenarios[v.scen].name + ".replay";
    std::string log;
    run_isolated(spec, v.scen, v.choices, thorough, v.sig.rfind("hang:", 0) == 0 ? 20 : 300, &log, nullptr, true, v.hist.empty() ? nullptr : &v.hist);
    if (FILE *f = fopen(rp.c_str(), "w")) {
      fprintf(f, "property %s\nscenario %s\ntier %s\nchoices", spec.property, spec.scenarios[v.scen].name, thorough ? "thorough" : "quick");
      for (auto x : v.choices) fprintf(f, " %u", x);
      for (auto &u : v.hist) { fprintf(f, "\nhistory %s ", spec.scenarios[u.scenario].name); for (auto x : u.prefix) fprintf(f, " %u", x); }
      fprintf(f, "\nsig %s\nmsg %s\n--- log\n%s\n--- stderr\n%s\n", v.sig.c_str(), v.msg.c_str(), log.c_str(), first_err.c_str());
      fclose(f);
    }
    printf("violated: scenario=%s %s: %s\n", spec.scenarios[v.scen].name, v.sig.c_str(), v.msg.c_str());
    if (v.sig.rfind("crash", 0) == 0) printf("%s\n", first_err.substr(0, 1500).c_str());
    printf("VIOLATION property=%s replay=%s\n", spec.property, rp.c_str());
    return 1;
  }
  if (infra_error || nondet) { fprintf(stderr, "check error: %s\n", infra.c_str()); return 2; }
  return 0;
}
}  // namespace mc
