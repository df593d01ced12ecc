"""TLC front end: exhaustive exploration and simulation of the specifications,
every explored transition being exported as one JSON line."""
import hashlib, json, os, pickle, re, subprocess, shutil, threading, time, tempfile
from . import build
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPECS = os.path.join(build.VERIF, "specs")

class TLCError(Exception): pass

def _cached(f):
    """development only (VERIF_TLC_CACHE): what TLC answered to the same question"""
    def g(mod, consts, workdir, *a, **k):
        d = os.environ.get("VERIF_TLC_CACHE")
        if not d: return f(mod, consts, workdir, *a, **k)
        h = hashlib.sha256(repr((f.__name__, mod, consts, a)).encode())
        for n in sorted(os.listdir(SPECS)): h.update(open(os.path.join(SPECS, n), "rb").read())
        os.makedirs(d, exist_ok=True); fn = os.path.join(d, h.hexdigest())
        try: return pickle.load(open(fn, "rb"))
        except Exception: pass
        r = f(mod, consts, workdir, *a, **k)
        tmp = f"{fn}.{os.getpid()}.{threading.get_ident()}"; pickle.dump(r, open(tmp, "wb")); os.replace(tmp, fn)
        return r
    return g

MC = """---- MODULE {mc} ----
EXTENDS {mod}, TLC, Json
{defs}VARIABLE vst
Emit(tag, v) == PrintT(tag \\o ToJson(v))
MCInit == vst = InitSt /\\ Emit("@I ", vst)
MCStep(o) == LET r == Apply(vst, o) IN
   /\\ Assert(StepOK(vst, o, r), <<"StepOK is false", vst, o, r>>)
   /\\ Emit("@T ", <<vst, o, r.obs, r.st>>)
   /\\ vst' = r.st
MCNext == \\E k \\in DOMAIN Ops(vst) : \\E o \\in Ops(vst)[k] : MCStep(o)
MCInv == Inv(vst)
MCCon == Bound(vst)
====
"""
SIM = """---- MODULE {mc} ----
EXTENDS {mod}, TLC, Json, Integers, FiniteSets
{defs}VARIABLES vst, vn
Emit(tag, v) == PrintT(tag \\o ToJson(v))
SIMInit == /\\ vn = 0 /\\ vst = InitSt /\\ Emit("@I ", vst)
KS(s) == {{k \\in DOMAIN Ops(s) : Ops(s)[k] # {{}}}}
SIMNext == \\E k \\in {{RandomElement(KS(vst))}} : \\E o \\in {{RandomElement(Ops(vst)[k])}} :
   LET r == Apply(vst, o) IN
   /\\ Assert(StepOK(vst, o, r), <<"StepOK is false", vst, o, r>>)
   /\\ Emit("@T ", <<vst, o, r.obs, r.st>>)
   /\\ vst' = r.st /\\ vn' = vn + 1
SIMInv == Inv(vst)
====
"""
TRACE = """---- MODULE {mc} ----
EXTENDS {mod}, TLC, Json, Integers, Sequences
{defs}VARIABLES vst, vi
Tr == ndJsonDeserialize("{file}")
Emit(tag, v) == PrintT(tag \\o ToJson(v))
TRInit == /\\ vi = 1 /\\ vst = InitSt
TRNext == /\\ vi <= Len(Tr)
          /\\ LET e == Tr[vi] IN
             IF e[1][1] = "@reset" THEN vst' = InitSt /\\ vi' = vi + 1
             ELSE LET r == Apply(vst, e[1]) IN
               /\\ IF ToString(r.obs) = ToString(e[2]) /\\ StepOK(vst, e[1], r) THEN vi' = vi + 1
                  ELSE Emit("@X ", <<vi, e[1], r.obs, e[2]>>) /\\ vi' = vi + 1
               /\\ vst' = r.st
TRInv == Inv(vst)
====
"""

def _run(mc, text, cfg, workdir, args, timeout):
    os.makedirs(workdir, exist_ok=True)
    for f in os.listdir(SPECS):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPECS, f), workdir)
    open(f"{workdir}/{mc}.tla", "w").write(text)
    open(f"{workdir}/{mc}.cfg", "w").write(cfg)
    cmd = ["java", "-Xmx4g", "-Xss64m", "-XX:+UseParallelGC", "-cp", JAR, "tlc2.TLC", "-config", mc + ".cfg", "-metadir", workdir + "/states", "-noGenerateSpecTE"] + args + [mc + ".tla"]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        raise TLCError(f"TLC timed out after {timeout}s on {mc}")
    shutil.rmtree(workdir + "/states", ignore_errors=True)
    return r.returncode, r.stdout, time.time() - t0

def _lines(out):
    """TLC prints strings quoted: "@T [...]" with inner quotes escaped"""
    for l in out.splitlines():
        if l.startswith('"@') and l.endswith('"'):
            s = l[1:-1].replace('\\"', '"').replace('\\\\', '\\')
            yield s[:2], s[3:]

def _cfg(consts, body):
    return body + ("CONSTANTS\n" + "\n".join(f"  {k} <- c_{k}" for k in consts) + "\n" if consts else "")

def _defs(consts): return "".join(f"c_{k} == {v}\n" for k, v in consts.items())

def _tail(out):
    """the part of TLC's output that explains a failure"""
    ls = [l for l in out.splitlines() if not l.startswith('"@') and not l.startswith(("Parsing file", "Semantic processing", "Running breadth", "TLC2 Version"))]
    seen, r = set(), []
    for l in ls:
        if l.strip() and l not in seen: seen.add(l); r.append(l)
    return "\n".join(r)[:2500]

@_cached
def explore(mod, consts, workdir, timeout=900, workers=4):
    """Exhaustive exploration; returns (inits, edges, stats)."""
    mc = "MC_" + mod
    rc, out, dt = _run(mc, MC.format(mc=mc, mod=mod, defs=_defs(consts)), _cfg(consts, "INIT MCInit\nNEXT MCNext\nINVARIANT MCInv\nCONSTRAINT MCCon\nCHECK_DEADLOCK FALSE\n"),
                   workdir, ["-workers", str(workers)], timeout)
    if rc != 0:
        tail = _tail(out)
        raise TLCError(f"TLC failed on {mod} (rc {rc}):\n{tail}")
    inits, edges = [], {}
    for tag, js in _lines(out):
        if tag == "@I": inits.append(json.loads(js))
        elif tag == "@T":
            if js not in edges: edges[js] = json.loads(js)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    stats = {"states": int(m.group(2)), "transitions": len(edges), "generated": int(m.group(1)), "wall_s": round(dt, 2)}
    return inits, list(edges.values()), stats

@_cached
def simulate(mod, consts, workdir, num, depth, seed, timeout=600):
    """Random behaviours chosen by the specification; list of (init, [edge...])."""
    mc = "SIM_" + mod
    rc, out, dt = _run(mc, SIM.format(mc=mc, mod=mod, defs=_defs(consts)), _cfg(consts, "INIT SIMInit\nNEXT SIMNext\nINVARIANT SIMInv\nCHECK_DEADLOCK FALSE\n"),
                   workdir, ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed), "-workers", "1"], timeout)
    if rc != 0:
        tail = _tail(out)
        raise TLCError(f"TLC simulation failed on {mod} (rc {rc}):\n{tail}")
    behs, cur, pend = [], None, None
    for tag, js in _lines(out):
        v = json.loads(js)
        if tag == "@I":
            pend = v
        elif tag == "@T":
            if cur is None or v[0] != cur[-1][3]:
                cur = []; behs.append((v[0], cur))
            cur.append(v)
    return behs, {"behaviours": len(behs), "steps": sum(len(b) for _, b in behs), "wall_s": round(dt, 2)}

@_cached
def validate(mod, consts, workdir, trace, timeout=600):
    """Check recorded [op, obs] events against the specification.  Returns list of mismatches."""
    mc = "TR_" + mod
    os.makedirs(workdir, exist_ok=True)
    fn = os.path.join(workdir, mc + ".ndjson")
    with open(fn, "w") as f:
        for e in trace: f.write(json.dumps(e) + "\n")
    rc, out, dt = _run(mc, TRACE.format(mc=mc, mod=mod, file=fn, defs=_defs(consts)), _cfg(consts, "INIT TRInit\nNEXT TRNext\nINVARIANT TRInv\nCHECK_DEADLOCK FALSE\n"),
                   workdir, ["-workers", "1"], timeout)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    mism = [json.loads(js) for tag, js in _lines(out) if tag == "@X"]
    if rc != 0 or not m or int(m.group(2)) != len(trace) + 1:
        tail = _tail(out)
        raise TLCError(f"TLC trace validation failed on {mod} (rc {rc}, {m.group(0) if m else ''}; events {len(trace)}):\n{tail}")
    return mism, {"events": len(trace), "wall_s": round(dt, 2)}
