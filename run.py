#!/usr/bin/env python3
"""Builds one check from /repo's working tree and /verif, and runs it.
   run.py <ID> [--thorough|--quick] [-v] [--only SCENARIO] [--replay FILE]
   run.py --setup          builds every check once
"""
import hashlib, os, subprocess, sys, glob, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GC_REPO", "/repo")
B = os.path.join(HERE, "build")
C = os.path.join(REPO, "c")
SAN = ["-fsanitize=address,bounds,integer-divide-by-zero,unreachable,return",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
BASE = ["-O1", "-g1", "-ftrivial-auto-var-init=pattern", "-w", "-pthread"]
INC = [f"{HERE}/shim/include"] + [f"{C}/{d}" for d in (
    "librtcm/include", "libubx/include", "libixcom/include", "gnss_converters/include",
    "gnss_converters_extra/include", "nov2sbp/parser", "nov2sbp", "nov2sbp/src", "nov2sbp/include",
    "rtcm3tosbp/include", "rtcm3tosbp/src", "sbp2rtcm/include", "sbp2rtcm/src", "ubx2sbp/include", "ubx2sbp/src",
    "ixcom2sbp/include", "ixcom2sbp/src", "gnss_converters/src", "gnss_converters_extra/src", "librtcm/src")]
INC = [i for i in INC if os.path.isdir(i)]

def srcs(*pats, exclude=()):
    out = []
    for p in pats:
        out += sorted(glob.glob(os.path.join(C, p), recursive=True))
    return [o for o in out if not any(e in os.path.basename(o) for e in exclude)]

GROUPS = {
    "novparser": lambda: srcs("nov2sbp/parser/*.cc", exclude=("test_",)),
    "nov2sbp": lambda: srcs("nov2sbp/src/*.cc", exclude=("_main",)),
    "librtcm": lambda: srcs("librtcm/src/*.c"),
    "libubx": lambda: srcs("libubx/src/*.c"),
    "libixcom": lambda: srcs("libixcom/src/*.c"),
    "conv": lambda: srcs("gnss_converters/src/**/*.c"),
    "extra": lambda: srcs("gnss_converters_extra/src/*.c"),
    "rtcm3tosbp": lambda: srcs("rtcm3tosbp/src/*.c", exclude=("_main",)),
    "sbp2rtcm": lambda: srcs("sbp2rtcm/src/*.c", exclude=("_main",)),
    "ubx2sbp": lambda: srcs("ubx2sbp/src/*.c", exclude=("_main",)),
    "ixcom2sbp": lambda: srcs("ixcom2sbp/src/*.c", exclude=("_main",)),
    "mains": lambda: srcs("*/src/*_main.c", "*/src/*_main.cc"),
    "shim": lambda: sorted(glob.glob(f"{HERE}/shim/src/*.c")),
}
sys.path.insert(0, HERE)
from checks.registry import CHECKS   # id -> dict(src=, groups=[...], flags=[...])

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def headers_digest():
    h = hashlib.sha256()
    for root in (C, f"{HERE}/shim/include", f"{HERE}/mc", f"{HERE}/checks", f"{HERE}/shim/src"):
        for d, sub, fs in sorted(os.walk(root)):
            if "/test" in d: continue
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".inc")):
                    p = os.path.join(d, f); h.update(p.replace(REPO, "").encode())
                    with open(p, "rb") as fh: h.update(fh.read())
    return h.hexdigest()

def objects(src_list, flags, hd, per_file={}):
    jobs = []; flags0 = flags
    for s in src_list:
        flags = per_file.get(os.path.basename(s), flags0)
        cxx = s.endswith(".cc") or s.endswith(".cpp")
        cmd = (["clang++", "-std=c++17"] if cxx else ["clang", "-std=gnu11"]) + BASE + flags + sum([["-I", i] for i in INC], []) + ["-I", f"{HERE}/mc"]
        with open(s, "rb") as fh: content = fh.read()
        key = sha(" ".join(cmd).replace(REPO, "R"), content, hd, s.replace(REPO, "R"))
        jobs.append((cmd + ["-c", s, "-o"], f"{B}/obj/{os.path.basename(s)}.{key}.o"))
    return jobs

def compile_all(jobs):
    todo = {o: c for c, o in jobs if not os.path.exists(o)}
    def one(o, c):
        t = o + f".tmp{os.getpid()}"
        r = subprocess.run(c + [t], capture_output=True, text=True)
        if r.returncode: return (o, r.stderr)
        os.rename(t, o); return None
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for r in ex.map(lambda kv: one(*kv), todo.items()):
            if r:
                sys.stderr.write(f"build failed: {r[0]}\n{r[1]}\n"); sys.exit(3)

def build(ids):
    os.makedirs(f"{B}/obj", exist_ok=True)
    hd = headers_digest(); plan = {}; all_jobs = []
    for i in ids:
        ck = CHECKS[i]; flags = SAN + ck.get("flags", [])
        j = objects([f"{HERE}/checks/{x}" for x in ck["src"].split()], flags, hd)
        j += objects([f"{HERE}/mc/mc.cc"], ["-O2"], hd)
        lib = []
        for g in ck["groups"]: lib += objects(GROUPS[g](), flags + ck.get("lib_flags", []), hd, ck.get("file_flags", {}))
        plan[i] = (j, lib); all_jobs += j + lib
    compile_all(all_jobs)
    exes = {}
    for i, (j, lib) in plan.items():
        objs = [o for _, o in j]; libs = [o for _, o in lib]
        exe = f"{B}/{i}.{sha(*(objs + libs), repr(CHECKS[i].get('ldflags')))}"
        if not os.path.exists(exe):
            for old in glob.glob(f"{B}/{i}.*"):
                os.unlink(old)
            ar = f"{B}/{i}.a.{os.getpid()}"
            if libs:
                subprocess.run(["ar", "qcsTP", ar] + libs, check=True)
            r = subprocess.run(["clang++"] + SAN + ["-pthread", "-o", exe + ".tmp"] + objs + (["-Wl,--start-group", ar, "-Wl,--end-group"] if libs else []) + ["-lm"] + CHECKS[i].get("ldflags", []), capture_output=True, text=True)
            if libs: os.unlink(ar)
            if r.returncode: sys.stderr.write(r.stderr); sys.exit(3)
            os.rename(exe + ".tmp", exe)
        exes[i] = exe
    return exes

def rust_programs():
    """The Rust front ends of the programs, on the converters compiled as they are (no sanitizers) and the stand-in libraries."""
    hd = headers_digest(); lib = []
    for g in ("novparser", "nov2sbp", "conv", "extra", "librtcm", "libubx", "libixcom", "rtcm3tosbp", "sbp2rtcm", "ubx2sbp", "ixcom2sbp", "shim"): lib += objects(GROUPS[g](), [], hd)
    own = objects([f"{HERE}/checks/progs.cc", f"{HERE}/checks/progsrun.cc"], [], hd); compile_all(lib + own)
    rs = sorted(glob.glob(f"{REPO}/rust/*.rs")) + sorted(glob.glob(f"{HERE}/shim/rust/*.rs")); h = hashlib.sha256("".join(o for _, o in lib + own).encode())
    for f in rs:
        with open(f, "rb") as fh: h.update(fh.read())
    d = f"{B}/rust.{h.hexdigest()[:24]}"
    if os.path.isdir(d): return d
    for old in glob.glob(f"{B}/rust.*"): subprocess.run(["find", old, "-delete"])
    t = f"{d}.tmp{os.getpid()}"; os.makedirs(t)
    def run(*cmd):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: sys.stderr.write(f"build failed: {' '.join(cmd)}\n{r.stderr[-3000:]}\n"); sys.exit(3)
    rc = ["rustc", "--edition", "2018", "--cap-lints", "allow", "-C", "panic=abort", "-L", t]; ex = []
    for x in ("libc", "if_chain", "lazy_static"):
        run(*rc, "--crate-type", "rlib", "--crate-name", x, "-o", f"{t}/lib{x}.rlib", f"{HERE}/shim/rust/{x}.rs"); ex += ["--extern", f"{x}={t}/lib{x}.rlib"]
    run(*rc, "--crate-type", "rlib", "--crate-name", "gnss_converters", *ex, "-o", f"{t}/libgnss_converters.rlib", f"{REPO}/rust/lib.rs")
    for x in ("ubx2sbp_main", "ixcom2sbp_main", "rtcm3tosbp_main", "sbp2rtcm_main", "nov2sbp_main", "gnss_converters", "gnss_converters_extra", "swiftnav", "sbp", "ixcom", "rtcm", "ubx", "novatel-parser"): run("ar", "qc", f"{t}/lib{x}.a")
    run("ar", "qcsTP", f"{t}/liball.a", *[o for _, o in lib])
    progs = [x for x in ("rtcm3tosbp", "ubx2sbp", "ixcom2sbp", "nov2sbp", "sbp2rtcm")]
    with cf.ThreadPoolExecutor(5) as e:
        list(e.map(lambda x: run(*rc, *ex, "--extern", f"gnss_converters={t}/libgnss_converters.rlib", "--crate-name", x, "-C", "linker=clang++", "-o", f"{t}/{x}", *sum([["-C", f"link-arg={o}"] for _, o in own], []), "-C", "link-arg=-Wl,--start-group", "-C", f"link-arg={t}/liball.a", "-C", "link-arg=-Wl,--end-group", "-C", "link-arg=-lstdc++", "-C", "link-arg=-lm", "-C", "link-arg=-lgcc", f"{REPO}/rust/{x}.rs"), progs))
    os.rename(t, d); return d

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build(list(CHECKS)); rust_programs(); return 0
    i = a[0]
    exe = build([i])[i]
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:malloc_fill_byte=190:max_malloc_fill_size=65536:detect_stack_use_after_return=0:allocator_may_return_null=1:quarantine_size_mb=8:handle_abort=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1"
    if CHECKS[i].get("rust"): env["GC_RUST"] = rust_programs()
    os.chdir(HERE)
    return subprocess.call([exe] + a[1:], env=env)
if __name__ == "__main__":
    sys.exit(main())
