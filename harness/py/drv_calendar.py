import re, contextlib
import dynamic_graph.sot.core.utils.attime as at
import stub
DOC = {1: "one", 2: None, 3: "", 4: "four", 5: None}
LOG = []
class Out:
    def write(self, s): LOG.append(["print", clean(s)])
    def flush(self): pass
def clean(s):
    s = re.sub(r"<function .*?mk\.<locals>\.f(\d) at 0x[0-9a-f]+>", r"F\1", s)
    return re.sub(r"<[^<>]*attime(Always|Stop) object at 0x[0-9a-f]+>", lambda m: m.group(1).upper(), s)
def fold():
    """join the pieces of a printed line"""
    r = []
    for e in LOG:
        if e[0] == "print" and r and r[-1][0] == "print" and not r[-1][1].endswith("\n"): r[-1][1] += e[1]
        else: r.append(e)
    return r
def mk(k):
    def body(*a):
        LOG.append(["f", k, list(a)])
        if k == 4: cal.stop((F[4], DOC[4]))
        if k == 5: cal(7, F[1])
    ns = {"body": body}
    exec("def mk():\n def f%d(*a): body(*a)\n return f%d" % (k, k), ns)
    f = ns["mk"](); f.__doc__ = DOC[k]
    return f
class Obj: pass
def reset():
    global cal, F, D, S
    cal = at.Calendar(); F = {k: mk(k) for k in DOC}; D = None; LOG.clear()
    S = stub.SignalBase(stub.Entity("e"), "s", "vector")
def when(t): return at.ALWAYS if t == -1 else t
def op(o):
    global D
    c = o[0]; LOG.clear()
    with contextlib.redirect_stdout(Out()):
        if c == "reg":
            t, form, k = when(o[1]), o[2], o[3]
            if form == "fun": cal(t, F[k])
            elif form == "pair": cal(t, F[k], o[4])
            elif form == "tuple": cal(t, (F[k], o[4]))
            elif form == "object": x = Obj(); x.functor = F[k]; cal(t, x)
            elif form == "two": cal(t, F[k], F[o[4]])
            elif form == "many": cal(t, F[k], (F[o[5]], o[4]), F[o[5]])
            return ["ok"]
        if c == "deco":
            D = cal(o[1])(mk(o[2])); return [D.__doc__]
        if c == "calldeco":
            D(*o[1]); return fold()
        if c == "stop":
            cal.stop((F[o[1]], o[2])); return ["ok"]
        if c == "ping":
            k = o[1]; cal.addPing(lambda: LOG.append(["ping", k])); return ["ok"]
        if c in ("run", "ff"):
            try:
                if c == "run": cal.run(o[1], *o[2])
                else: cal.fastForward(o[1])
            except Exception as e: LOG.append(["raised", type(e).__name__])
            return fold()
        if c == "repr": return [clean(repr(cal))]
        if c == "sigset": at.sigset(S, o[1]); return [[int(x) for x in S.value]]
