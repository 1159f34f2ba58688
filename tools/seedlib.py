"""Creates and verifies planted bugs under /verif/seeded (never read by a check).
   seed(id, property, needs, breaks, edits=[(file, old, new[, count])...], groups=[...], demo=(name, text), cflags="")
   run as a script:  seedlib.py verify ID...   checks that the patch applies, builds, passes the tests, and that demo.sh separates."""
import os, subprocess, sys, json, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = f"{H}/seeded"
SRC = {"novparser": "$(ls nov2sbp/parser/*.cc | grep -v test_)", "nov2sbp": "$(ls nov2sbp/src/*.cc | grep -v _main)", "librtcm": "$(ls librtcm/src/*.c)", "libubx": "$(ls libubx/src/*.c)", "libixcom": "$(ls libixcom/src/*.c)",
       "conv": "$(find gnss_converters/src -name '*.c')", "extra": "$(ls gnss_converters_extra/src/*.c)", "rtcm3tosbp": "$(ls rtcm3tosbp/src/*.c | grep -v _main)", "sbp2rtcm": "$(ls sbp2rtcm/src/*.c | grep -v _main)", "ubx2sbp": "$(ls ubx2sbp/src/*.c | grep -v _main)", "ixcom2sbp": "$(ls ixcom2sbp/src/*.c | grep -v _main)"}
SH = r'''#!/bin/bash
# exits 0 when the behaviour is right, 1 when it is not; run with cwd = repository root
set -e
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d); trap 'find "$W" -delete' EXIT
cd "$R/c"
INC="-I$D/shim/include"; for d in librtcm/include libubx/include libixcom/include gnss_converters/include gnss_converters_extra/include nov2sbp/parser nov2sbp nov2sbp/src nov2sbp/include rtcm3tosbp/include sbp2rtcm/include ubx2sbp/include ixcom2sbp/include gnss_converters/src gnss_converters_extra/src librtcm/src; do INC="$INC -I$R/c/$d"; done
P=
for f in $D/shim/src/*.c $D/DEMO SOURCES; do
  o=$W/$(echo "$f" | tr '/' '_').o
  case $f in *.cc) clang++ -std=c++17 -O1 -g -w -pthread @SAN@ $INC -c $f -o $o & ;; *) clang -std=gnu11 -O1 -g -w -pthread @SAN@ $INC -c $f -o $o & ;; esac
  P="$P $!"
done
for p in $P; do wait $p; done
clang++ -pthread @SAN@ -o "$W/demo" $W/*.o -lm
cd "$W"; ASAN_OPTIONS=detect_leaks=0 timeout 200 ./demo
'''
def seed(id, prop, needs, breaks, edits, groups, demo, san=""):
    d = f"{S}/{id}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp(prefix="seedwt", dir="/tmp")
    try:
        subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/r"], check=True)
        for e in edits:
            f, a, b = e[:3]; n = e[3] if len(e) > 3 else 1; p = f"{t}/r/c/{f}"; x = open(p).read()
            assert x.count(a) == n, (id, f, x.count(a), a); open(p, "w").write(x.replace(a, b))
        open(f"{d}/patch.diff", "w").write(subprocess.run(["git", "-C", t + "/r", "diff"], capture_output=True, text=True, check=True).stdout)
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/r"]); os.rmdir(t)
    shutil.copytree(f"{H}/shim", f"{d}/shim")
    open(f"{d}/{demo[0]}", "w").write(demo[1])
    sh = SH.replace("DEMO", demo[0]).replace("SOURCES", " ".join(SRC[g] for g in groups)).replace("@SAN@", san)
    open(f"{d}/demo.sh", "w").write(sh); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
def verify(ids, tests=True):
    bad = 0
    for id in ids:
        d = f"{S}/{id}"; t = tempfile.mkdtemp(prefix="seedwt", dir="/tmp"); msg = []
        try:
            subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/r"], check=True)
            demo = lambda: subprocess.run(["bash", f"{d}/demo.sh"], cwd=t + "/r", capture_output=True, text=True)
            r = demo(); msg.append(f"clean={r.returncode}")
            if r.returncode: msg.append((r.stdout + r.stderr)[-1500:])
            a = subprocess.run(["git", "-C", t + "/r", "apply", f"{d}/patch.diff"], capture_output=True, text=True)
            if a.returncode: msg.append("patch does not apply: " + a.stderr[:300])
            r2 = demo(); msg.append(f"patched={r2.returncode} {(r2.stdout + r2.stderr)[-300:].strip()}")
            ok = r.returncode == 0 and r2.returncode != 0 and a.returncode == 0
            if "error:" in r2.stderr: ok = False; msg.append("COMPILE ERROR")
        finally:
            subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/r"]); os.rmdir(t)
        print(("ok  " if ok else "BAD ") + id, *msg, flush=True); bad += not ok
    return bad
if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(S)); sys.exit(verify(ids) > 0)
