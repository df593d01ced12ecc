#!/usr/bin/env python3
"""Maintain /verif/seeded.
  seed.py make FILE    create the planted bugs described in FILE (python: SEEDS list of dicts id, property, file, old, new, [more], needs, breaks, files{})
  seed.py confirm ID.. confirm: applies, builds, stable tests pass, demo 0 / non-zero
  seed.py catch ID..   run the property's quick check on the patched tree
Works in /repo, which is restored afterwards."""
import json, os, subprocess, sys, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = V + "/seeded"
CPP = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d); trap 'rm -r "$d"' EXIT
g++ -std=c++14 -I"$PWD/include" -I/usr/include/eigen3 "$here/demo.cpp" -o "$d/demo" -L"$PWD/_build" -lsot-core -Wl,-rpath,"$PWD/_build" || exit 3
cd "$d" && timeout 60 ./demo
'''
PY = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d); trap 'rm -r "$d"' EXIT
cd "$d" && REPO="$repo" PYTHONDONTWRITEBYTECODE=1 timeout 60 python3 "$here/demo.py"
'''
# classes the official build leaves out: compile them with the dynamic-graph stand-in that lies beside the demo
ENT = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d); trap 'rm -r "$d"' EXIT
tar xzf "$here/support.tar.gz" -C "$d" || exit 3
export FLAGS="-std=c++14 -w -O0 -I$d/shim -I$d/harness -I/usr/include/eigen3 -DBOOST_BIND_GLOBAL_PLACEHOLDERS -DTESTS_DYNLIBSUFFIX=\\".so\\" -DSOT_CORE_EXPORTS -I$repo/include -I$repo/src"
printf '%s\\n' @SRCS@ "$d/shim/dgshim.cpp" "$here/demo.cpp" | (cd "$d" && d="$d" xargs -P 8 -I@ sh -c 'f=@; g++ $FLAGS -c "$f" -o "$d/$(echo "$f" | md5sum | cut -c1-12).o"') || exit 3
g++ -o "$d/demo" "$d"/*.o -lboost_filesystem -lboost_thread -lboost_regex -lboost_system -lboost_program_options -lpthread -ldl || exit 3
cd "$d" && timeout 100 ./demo
'''
CORE = ["debug/debug", "debug/contiifstream"] + ["exception/exception-" + x for x in "abstract dynamic factory feature signal task tools".split()]
def git(*a, **k): return subprocess.run(["git", "-C", "/repo"] + list(a), capture_output=True, text=True, **k)
def restore(): git("checkout", "--", ".")
def make(f):
    ns = {}; exec(open(f).read(), ns)
    only = set(sys.argv[3:])
    for s in ns["SEEDS"]:
        if only and s["id"] not in only: continue
        restore(); print(s["id"], end=" ", flush=True); d = f"{S}/{s['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for file, old, new in [(s["file"], s["old"], s["new"])] + s.get("more", []):
            p = "/repo/" + file; t = open(p, newline="").read()
            if "\r\n" in t: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert t.count(old) == 1, (s["id"], file, t.count(old))
            assert subprocess.run(["git", "-C", "/repo", "show", "6fb41f4:" + file], capture_output=True, text=True).stdout.replace("\r\n", "\n").count(old.replace("\r\n", "\n")) >= 1, (s["id"], file, "not an original line")
            open(p, "w", newline="").write(t.replace(old, new))
        open(d + "/patch.diff", "wb").write(subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True).stdout); restore()
        if "ent" in s:
            open(d + "/demo.cpp", "w").write(s["cpp"]); srcs = [f"src/{x}.cpp" for x in CORE + s["ent"].split()]
            sh = ENT.replace("@SRCS@", " ".join(f'"$repo/{x}"' for x in dict.fromkeys(srcs)))
            subprocess.run(f"tar c --sort=name --mtime=@0 --owner=0 --group=0 -C {V} shim harness/h.hh harness/ent.hh | gzip -9n > {d}/support.tar.gz", shell=True, check=True)
        elif "cpp" in s: open(d + "/demo.cpp", "w").write(s["cpp"]); sh = CPP
        else: open(d + "/demo.py", "w").write(s["py"]); sh = PY
        for n, t in s.get("files", {}).items(): open(f"{d}/{n}", "w").write(t)
        open(d + "/demo.sh", "w").write(s.get("sh", sh)); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("made", s["id"])
def demo(i): return subprocess.run(["bash", f"{S}/{i}/demo.sh"], cwd="/repo", capture_output=True, text=True)
def confirm(i):
    subprocess.run(["bash", "/opt/vp/build.sh"], check=True, capture_output=True)
    r0 = demo(i)
    r = git("apply", f"{S}/{i}/patch.diff")
    if r.returncode: return print(i, "DOES NOT APPLY", r.stderr)
    try:
        t = subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/seedtest.json"], capture_output=True, text=True)
        res = json.load(open("/tmp/seedtest.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        stable = set(base.get("stable") or base.get("passed") or base.get("tests"))
        r1 = demo(i)
        print(i, "OK" if r0.returncode == 0 and r1.returncode not in (0, 3) and stable <= set(res["passed"]) else "BAD", "clean", r0.returncode, "patched", r1.returncode, "missing", stable - set(res["passed"]), r0.stderr[-500:], "" if r1.returncode not in (0, 3) else r1.stderr[-500:])
    finally: restore(); subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True)
def catch(i):
    p = json.load(open(f"{S}/{i}/meta.json"))["property"]
    r = git("apply", f"{S}/{i}/patch.diff")
    if r.returncode: return print(i, "DOES NOT APPLY", r.stderr)
    try:
        r = subprocess.run(["python3", "run.py", p], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
        print(i, p, "CAUGHT" if r.returncode == 1 and v else f"MISSED rc={r.returncode}", (r.stdout + r.stderr)[-300:] if r.returncode not in (0, 1) else "", flush=True)
    finally: restore()
if __name__ == "__main__":
    c, args = sys.argv[1], sys.argv[2:]
    if c == "make": make(args[0])
    else:
        for i in args or sorted(os.path.basename(p) for p in glob.glob(S + "/*")): (confirm if c == "confirm" else catch)(i)
