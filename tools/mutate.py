#!/usr/bin/env python3
"""Mutation campaign: small random changes of /repo's sources, each run against the checks of the properties anchored in the file.
  mutate.py SCRATCH WORKERS NUM SEED [file substring ...]
Works on copies under SCRATCH (outside /repo and /verif); results are appended to SCRATCH/results.jsonl.
A development tool: finds places the checks do not look at."""
import json, os, random, re, shutil, subprocess, sys, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
scratch, workers, num, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]); only = sys.argv[5:]
OPS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\b3\b", "2"), (r"\+\+", "--"), (r"\+=", "-="), (r"-=", "+="), (r" \+= ", " = "), (r"if \((.*)\) ", r"if (!(\1)) "), (r"if \((.*)\) \{", r"if (true) {"), (r"\.transpose\(\)", ""), (r"\bmin\b", "max"), (r"\bmax\b", "min"),
       (r"\bsin\(", "cos("), (r"\bcos\(", "sin("), (r"\bfabs\(", "("), (r"^(\s+)(?!return|throw|else|if|for|while|case|default|break|const|typedef|using|template|public|private|protected)([a-zA-Z_][^=;{}]*\([^;{}]*\);)$", r"\1;"), (r"^(\s+)(?!return|const|typedef|using|[a-zA-Z_:<>]+ [a-zA-Z_]+ = )([a-zA-Z_][^;{}()]* = [^;{}]*;)$", r"\1;"), (r"^(\s+)break;$", r"\1;"), (r"^(\s+)continue;$", r"\1;"),
       (r"\.size\(\)", ".size() - 1"), (r"\.rows\(\)", ".cols()"), (r"\.cols\(\)", ".rows()"), (r"\bi\b", "j"), (r"\bj\b", "i"), (r" = ([a-z_A-Z.]+);", r" = -\1;"), (r"\.begin\(\)", ".end()"), (r"(\w+), (\w+)\)", r"\2, \1)"), (r"\bsqrt\(", "("), (r"\*this", "*this"), (r"\bnot \b", ""), (r"\band\b", "or"), (r"\bor\b", "and"), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"\bNone\b", "0")]
DEPS = [(r"\b\w+ << (\w+)", r"\1"), (r"(\w+) << \w+\b", r"\1"), (r"^(\s+)(\w*S(?:IN|OUT|INTERN)\w*),$", r"\1sotNOSIGNAL,"), (r", (\w*S(?:IN|OUT|INTERN)\w*),", r", sotNOSIGNAL,"), (r"^(\s+)(\w*(?:addDependency|setReady|removeDependency|clearDependencies|plug|unplug|recompute)\(.*\);)$", r"\1;"), (r"^(\s+)([\w.>-]*(?:addDependency|setReady|removeDependency|setDependencyType|clearDependencies|plug|unplug|recompute)\(.*\);)$", r"\1;")]
NARROW = [(r"\bdouble (\w+)( =|;|\()", r"float \1\2"), (r"\bint (\w+)( =|;)", r"signed char \1\2"), (r"\b(?:unsigned int|unsigned|std::size_t|size_t) (\w+)( =|;)", r"unsigned char \1\2"), (r" = ([^;]*\bdouble\b[^;]*);", r" = float(\1);"), (r"^(\s+\w[\w.\[\]()>-]* [-+*]?= )([^;{}]+);$", r"\1float(\2);"), (r"^(\s+\w[\w.\[\]()>-]* [-+*]?= )([^;{}]+);$", r"\1(\2).cast<float>().cast<double>();"), (r"\breturn ([^;{}]+);", r"return float(\1);"), (r"static_cast<double>", "static_cast<float>"), (r"\(double\)", "(float)")]
if os.environ.get("OPSET") == "narrow": OPS = NARROW      # a loss of precision or of range
if os.environ.get("OPSET") == "deps": OPS = DEPS          # only what is announced to the graph
SKIP = re.compile(r"^\s*(//|\*|/\*|#|using|sotDEBUG|std::cout|std::cerr|assert|docstring|namespace|typedef|friend|explicit)|docstring|sotDEBUG|display|#include|\\n\"|^\s*\"|SEND_|getProfiler|logger|addCommand|makeDirect|makeCommand|dgDEBUG|PROFILE|os <<|<< \"|EXPORT")
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
files = {}
for p in props:
    t = json.dumps(p)
    for f in set(re.findall(r"(?:src|include)/[\w/.-]+\.(?:cpp|hh|hxx|py|h)", t)):
        if os.path.exists("/repo/" + f): files.setdefault(f, set()).add(p["id"])
SLOW = {}
def sites():
    r = []
    for f in sorted(files):
        if only and not any(o in f for o in only): continue
        ls = open("/repo/" + f, newline="", errors="replace").read().split("\n"); comment = False
        for n, l in enumerate(ls):
            if "/*" in l and "*/" not in l: comment = True
            if "*/" in l: comment = False; continue
            if comment or SKIP.search(l): continue
            if "//" in l: continue
            for k, (a, b) in enumerate(OPS):
                for m in re.finditer(a, l):
                    q = l[:m.start()].count('"') % 2
                    if q: continue
                    new = l[:m.start()] + m.expand(b) + l[m.end():]
                    if new != l: r.append((f, n, l, new))
    return r
S = sites(); R = random.Random(seed)
byf = {}
for s in S: byf.setdefault(s[0], []).append(s)
picked = []                                      # even over the files
fs = sorted(byf)
for f in fs: R.shuffle(byf[f])
while len(picked) < num and any(byf.values()):
    R.shuffle(fs)
    for f in fs:
        if byf[f] and len(picked) < num: picked.append(byf[f].pop())
if os.environ.get("REDO"):                       # the survivors of an earlier campaign
    old = {(r["file"], r["line"], r["new"]) for r in map(json.loads, open(os.environ["REDO"])) if r["verdict"] == "survived"}
    picked = list({(f, n, b.strip()): (f, n, a, b) for f, n, a, b in S if (f, n + 1, b.strip()) in old}.values())
print(len(S), "sites,", len(picked), "mutants", flush=True)
os.makedirs(scratch, exist_ok=True)
q = queue.Queue(); [q.put(x) for x in picked]; lock = threading.Lock()
def work(w):
    d = f"{scratch}/w{w}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"]); subprocess.check_call(["git", "-C", V, "worktree", "prune"]); shutil.copytree(V, d + "/verif", ignore=shutil.ignore_patterns(".git", "build", "seeded", "evidence", "replays"))
    env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_BUILD=d + "/build", VERIF_FAST="1", VERIF_TLC_CACHE=scratch + "/cache", VERIF_JOBS="3", VERIF_PAR="2", VERIF_SEED="1", VERIF_TIER="quick")
    while True:
        try: f, n, old, new = q.get_nowait()
        except queue.Empty: return
        p = d + "/repo/" + f; t = open(p, newline="", errors="surrogateescape").read(); ls = t.split("\n")
        assert ls[n] == old or True
        ls[n] = new; open(p, "w", newline="", errors="surrogateescape").write("\n".join(ls))
        out = {}; verdict = "survived"
        for c in sorted(files[f]):
            try:
                r = subprocess.run(["python3", "run.py", c], cwd=d + "/verif", env=env, capture_output=True, text=True, timeout=600); out[c] = r.returncode; txt = r.stdout + r.stderr
            except subprocess.TimeoutExpired: out[c] = "timeout"; txt = ""
            if out[c] == 1: verdict = "killed"; break
            if out[c] == 2 or out[c] == "timeout": verdict = "invalid"; break
        open(p, "w", newline="", errors="surrogateescape").write(t)
        with lock:
            with open(scratch + "/results.jsonl", "a") as g: g.write(json.dumps({"file": f, "line": n + 1, "old": old.strip(), "new": new.strip(), "verdict": verdict, "checks": out, "why": txt[-300:] if verdict == "invalid" else ""}) + "\n")
ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
print("done", flush=True)
