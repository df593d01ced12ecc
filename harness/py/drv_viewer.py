import sys, os, types, tempfile, shutil, builtins, glob, io, contextlib
import numpy as np
TMP = tempfile.mkdtemp(prefix="viewer")
# the files of the log live in a scratch directory of ours
def here(p): return TMP + p[len("/tmp"):] if isinstance(p, (str, bytes)) and str(p).startswith("/tmp/view") and not str(p).startswith(TMP) else p
_open, _remove, _unlink, _glob, _iglob = builtins.open, os.remove, os.unlink, glob.glob, glob.iglob
FILES = []
def opn(p, *a, **k):
    f = _open(here(p), *a, **k)
    if str(p).startswith("/tmp/view"): FILES.append(f)
    return f
builtins.open = io.open = opn
os.remove = lambda p, **k: _remove(here(p), **k)
os.unlink = lambda p, **k: _unlink(here(p), **k)
glob.glob = lambda p, *a, **k: _glob(here(p), *a, **k)
glob.iglob = lambda p, *a, **k: _iglob(here(p), *a, **k)
import dynamic_graph.sot.core.utils.viewer_helper as vh
import dynamic_graph.sot.core.utils.viewer_loger as vl
def finish(): shutil.rmtree(TMP, ignore_errors=True)
CALLS = []; MODE = "ok"
def R(x):
    v = float(x) * 10; r = round(v); return r if abs(v - r) < 1e-6 else "off:%r" % v
class Client:
    def updateElementConfig(self, name, v):
        if MODE == "silent": raise RuntimeError("no connection")
        CALLS.append([name, [R(x) for x in v]])
    def update(self, *a): pass
def client(server):
    if MODE == "refused" or server != "XML-RPC": raise RuntimeError("refused")
    return Client()
class Sig: pass
def reset():
    global CLS, ROB, P
    for f in FILES:
        if not f.closed: f.close()
    FILES.clear()
    for f in os.listdir(TMP): _remove(os.path.join(TMP, f))
    def mk():
        class Robot:
            def __init__(self, name, form, q): self.name = name; self.form = form; self.state = Sig(); self.state.time = 0; self.put([x / 10. for x in q])
            def put(self, q): self.state.value = np.array(q) if self.form == "array" else tuple(q)
            def set(self, q): self.put(q)
            def increment(self, dt): self.put([x + dt for x in self.state.value]); self.state.time += 1
        return Robot
    CLS = [mk() for _ in range(3)]; ROB = []; P = None; CALLS.clear()
def op(o):
    global MODE, P
    c = o[0]; CALLS.clear(); MODE = "ok"
    if c == "new": ROB.append(CLS[o[2] - 1](o[1], o[3], o[4])); return ["ok"]
    r = ROB[o[1] - 1]
    if c == "connect":
        mode, small, extra, dor, verb = o[2:]; MODE = mode
        if mode == "nomodule": sys.modules["robotviewer"] = None
        else: m = types.ModuleType("robotviewer"); m.client = client; sys.modules["robotviewer"] = m
        kw = {}
        if small: kw.update(small=True, small_extra=extra)
        if not dor: kw["dorefresh"] = False
        if not verb: kw["verbose"] = False
        out = io.StringIO()
        with contextlib.redirect_stdout(out): vh.addRobotViewer(r, **kw)
        MODE = "ok"
        return [["print", l] for l in out.getvalue().split("\n") if l] + list(CALLS)
    if c == "set": r.set([x / 10. for x in o[2]])
    elif c == "increment": r.increment(o[2] / 10.)
    elif c == "refresh": r.refresh()
    elif c == "display": k = o[2]; r.displayList.append(lambda: CALLS.append(["display", [k]])); return ["ok"]
    elif c == "state": return [[R(x) for x in r.state.value], r.state.time]
    elif c == "com":
        s = Sig(); s.time = o[2]; s.value = tuple(x / 10. for x in o[4])
        if o[3] == "com": vh.updateComDisplay(r, s)
        else: vh.updateComDisplay(r, s, o[3])
    elif c == "pinger": P = vh.VisualPinger(r.viewer)
    elif c == "ping": P.viewer = r.viewer; P()
    elif c == "log": r.viewer = vl.ViewerLoger(r); return ["ok"]
    elif c == "file":
        for f in FILES:
            if not f.closed: f.flush()
        p = os.path.join(TMP, "view_" + o[2] + ".dat")
        return [[[R(x) for x in l.split("\t")] for l in _open(p).read().split("\n") if l]] if os.path.exists(p) else ["absent"]
    return list(CALLS)
