"""Run the checks of one property: explore the specification with TLC, replay
every transition and many simulated behaviours in the real code, and validate
recorded traces of the real code against the specification."""
import json, os, random, sys, time, traceback, shutil, concurrent.futures as cf
from . import build, tlc, tour
from .drive import Driver

VERIF = build.VERIF
FAST = os.environ.get("VERIF_FAST")        # development only: stop at the first mismatch
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.json")

class Component:
    """One specification module bound to one harness.
      module   TLA+ module (specs/<module>.tla) defining InitSt, Ops, Apply, StepOK, Inv, Bound
      mk       () -> argv of the harness (builds it from /repo's working tree)
      explore  {tier: constants or None}
      sim      {tier: (constants, num, depth) or None}
      trace    {tier: f(rng) -> list of histories (lists of ops)} validated by TLC in the
               direction code -> specification, with constants `tconsts`
    """
    def __init__(self, name, module, mk, explore=None, sim=None, trace=None, tconsts=None, timeout=20.0, maxlen=60, env=None, workers=4, scale=None, note="", probe=True):
        self.name, self.module, self.mk = name, module, mk
        self.explore, self.sim, self.trace, self.tconsts = explore or {}, sim or {}, trace or {}, tconsts or {}
        self.timeout, self.maxlen, self.env, self.workers, self.note, self.probe = timeout, maxlen, env, workers, note, probe

def pick(d, tier):
    if callable(d): return d
    if tier in d: return d[tier]
    return d.get("quick")

class Violation(Exception):
    def __init__(self, comp, history, step, expected, got, source):
        self.comp, self.history, self.step, self.expected, self.got, self.source = comp, history, step, expected, got, source

def same(exp, got):
    return json.dumps(exp, sort_keys=True) == json.dumps(got, sort_keys=True)

def known_for(prop):
    try: ks = json.load(open(KNOWN))
    except FileNotFoundError: return []
    return [k for k in ks.get("findings", []) if k["property"] == prop]

def run_component(c, prop, tier, seed, wd):
    res = {"component": c.name, "module": c.module}
    viol = []
    argv = c.mk()
    drv = Driver(argv, timeout=c.timeout, env=c.env)
    samples = []
    states = transitions = replayed = steps = validated = 0
    distinct = set()
    def replay(path, source):
        nonlocal replayed, steps
        ops = [e[1] for e in path]
        got = drv.run(ops)
        replayed += 1
        for i, e in enumerate(path):
            g = got[i] if i < len(got) else ["MISSING"]
            steps += 1
            if not same(e[2], g):
                viol.append(Violation(c, ops[:i + 1], i, e[2], g, source))
                if FAST: print(f"FAST {c.name} {source} {json.dumps(e[1])[:200]} expected {json.dumps(e[2])[:200]} got {json.dumps(g)[:200]}", flush=True); os._exit(1)
                return False
        return True
    try:
        ex = pick(c.explore, tier)
        exs = ex if isinstance(ex, list) else ([ex] if ex is not None else [])
        for n, consts in enumerate(exs):
            inits, edges, st = tlc.explore(c.module, consts, f"{wd}/ex{n}", workers=c.workers)
            states += st["states"]; transitions += st["transitions"]
            paths, unr = tour.tours(inits, edges, c.maxlen)
            if unr: raise tlc.TLCError(f"{c.name}: {unr} unreachable source states in the exported graph")
            res.setdefault("explore", []).append({"constants": consts, **st, "histories": len(paths)})
            rng = random.Random(seed); rng.shuffle(paths)
            for p in paths:
                if not replay(p, "exploration") and len(viol) >= 5: break
            if c.probe and len(viol) < 5:
                t1 = time.time(); n0 = steps; lim = {"quick": 12, "thorough": 150}.get(tier, 12)
                for p in tour.probed(inits, edges, c.maxlen, {"quick": 60000, "thorough": 1500000}.get(tier, 60000), rng):
                    if not replay(p, "exploration with evaluations") and len(viol) >= 5: break
                    if time.time() - t1 > lim: break
                res["explore"][-1]["probed_steps"] = steps - n0
            if paths: samples.append([e[1] for e in paths[0]][:12])
            for e in edges: distinct.add(json.dumps(e[1]))
            if len(viol) >= 5: break
        sm = pick(c.sim, tier)
        sms = sm if isinstance(sm, list) else ([sm] if sm is not None else [])
        for n, (consts, num, depth) in enumerate(sms):
            if len(viol) >= 5: break
            behs, st = tlc.simulate(c.module, consts, f"{wd}/sim{n}", num, depth, seed + n)
            res.setdefault("simulate", []).append({"constants": consts, **st})
            for _, p in behs:
                if not replay(p, "simulation") and len(viol) >= 5: break
            if behs: samples.append([e[1] for e in behs[0][1]][:12])
        tr = pick(c.trace, tier)
        if tr is not None and len(viol) < 5:
            rng = random.Random(seed * 7919 + 13)
            hs = tr(rng)
            ev, idx = [], []
            for h, ops in enumerate(hs):
                got = drv.run(ops)
                ev.append([["@reset"], []]); idx.append((h, -1))
                for i, o in enumerate(ops):
                    g = got[i] if i < len(got) else ["MISSING"]
                    ev.append([o, g]); idx.append((h, i))
                    if g and g[0] in ("CRASH", "HANG", "MISSING"): break
                validated += 1
            mism, st = tlc.validate(c.module, c.tconsts, f"{wd}/tr", ev)
            res["trace_validation"] = {**st, "histories": len(hs)}
            seen = set()
            for vi, op, exp, got in mism:
                h, i = idx[vi - 1]
                if h in seen: continue
                seen.add(h)
                viol.append(Violation(c, hs[h][:i + 1], i, exp, got, "trace validation"))
            if hs: samples.append(hs[0][:12])
    finally:
        drv.stop()
    res.update(states=states, transitions=transitions, histories_replayed=replayed, steps_compared=steps, traces_validated=validated, samples=samples)
    return res, viol

def match_known(v, known):
    for k in known:
        if k.get("component") != v.comp.name: continue
        pats = k["match"]
        s_op = json.dumps(v.history[v.step])
        if "op" in pats and not s_op.startswith(pats["op"]): continue
        if "expected" in pats and json.dumps(v.expected) != json.dumps(pats["expected"]): continue
        if "got" in pats and json.dumps(v.got) != json.dumps(pats["got"]): continue
        if "history" in pats and json.dumps(v.history) != json.dumps(pats["history"]): continue
        return k
    return None

def main(prop, components, level="model_checking", extra=None):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    if "--quick" in sys.argv: tier = "quick"
    only = [a[7:] for a in sys.argv if a.startswith("--only=")]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    wd = os.path.join(build.BUILD, "work", f"{prop}-{os.getpid()}")
    shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    known = known_for(prop)
    results, viols, errors = [], [], []
    comps = [c for c in components if not only or c.name in only]
    try:
        with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_PAR", "3"))) as ex:
            futs = {ex.submit(run_component, c, prop, tier, seed, f"{wd}/{c.name}"): c for c in comps}
            for f in cf.as_completed(futs):
                c = futs[f]
                try:
                    r, v = f.result()
                    results.append(r); viols += v
                    print(f"[{prop}] {c.name}: states={r['states']} transitions={r['transitions']} replayed={r['histories_replayed']} steps={r['steps_compared']} validated={r['traces_validated']} mismatches={len(v)} ({time.time()-t0:.0f}s)", flush=True)
                except Exception as e:
                    errors.append((c.name, e))
                    print(f"[{prop}] {c.name}: ERROR {type(e).__name__}: {e}", flush=True)
                    if not isinstance(e, (build.BuildError, tlc.TLCError)): traceback.print_exc()
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    results.sort(key=lambda r: r["component"])
    new, hit = [], {}
    for v in viols:
        k = match_known(v, known)
        if k: hit[k["id"]] = k
        else: new.append(v)
    for k in hit.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    rc = 0
    rdir = os.path.join(VERIF, "replays")
    for n, v in enumerate(new[:10]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}-{v.comp.name}-{n}.json")
        json.dump({"property": prop, "component": v.comp.name, "found_by": v.source, "history": v.history, "failing_step": v.step,
                   "expected_by_specification": v.expected, "observed": v.got}, open(path, "w"), indent=1)
        print(f"  {v.comp.name}: after {json.dumps(v.history[:v.step])[:600]} op {json.dumps(v.history[v.step])} expected {json.dumps(v.expected)[:400]} got {json.dumps(v.got)[:400]}")
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        rc = 1
    if errors and rc == 0: rc = 2
    cov = {"states": sum(r["states"] for r in results), "transitions": sum(r["transitions"] for r in results),
           "traces_validated_against_impl": sum(r["histories_replayed"] + r["traces_validated"] for r in results),
           "steps_compared": sum(r["steps_compared"] for r in results) + sum(r.get("trace_validation", {}).get("events", 0) for r in results),
           "samples": [s for r in results for s in r["samples"]][:12],
           "components": [{k: v for k, v in r.items() if k != "samples"} for r in results]}
    if extra: cov.update(extra)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 1), "violations": len(new),
          "assumptions": ["dynamic-graph and pinocchio are replaced by the stand-ins in /verif/shim (validated against upstream's own test programs)"]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1)
    print(f"[{prop}] tier={tier} seed={seed} violations={len(new)} errors={len(errors)} wall={time.time()-t0:.1f}s")
    return rc
