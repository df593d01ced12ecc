import re, os, io, math, contextlib, tempfile, shutil, atexit
import numpy as np
from dynamic_graph.sot.core.utils.history import History
import stub
TMP = tempfile.mkdtemp(prefix="hist")
def finish(): shutil.rmtree(TMP, ignore_errors=True)
class Dyn(stub.Entity):
    cls = "Dyn"
H = None; D = None; Z = None; ARR = True
def deg(v): return [x * math.pi / 180 for x in v]
def R(x, unit=1):
    v = x * unit; r = round(v); return r if abs(v - r) < 1e-5 else "off:%r" % v
def reset():
    global H, D, Z
    H = None; D = None; Z = None
    for f in os.listdir(TMP): os.remove(os.path.join(TMP, f))
class Sig:
    """a signal whose value is given as it is"""
    def __init__(self, name): self.name, self.value, self.time = name, None, 0
def op(o):
    global H, D, Z, ARR
    c = o[0]
    if c == "new":
        freq, zmp, waist, ARR = o[1], o[2], o[3], o[4]
        D = stub.Entity("dyn"); D._s = {n: Sig(n) for n in ["position", "velocity"] + (["waist"] if waist else [])}
        D.__dict__["_s"] = D._s; Z = Sig("zmp") if zmp else None
        for n in D._s: D.__dict__[n] = D._s[n]
        H = History(D, freq, Z) if freq else History(D, zmpSig=Z)
        return ["ok"]
    conv = np.array if ARR else tuple
    if c == "at":
        D.position.time = o[1]; D.position.value = conv(deg(o[2])); D.velocity.value = conv([float(x) for x in o[3]])
        if "waist" in D._s:
            k, t = o[5]; cc, ss = [(1, 0), (0, 1), (-1, 0), (0, -1)][k]
            W = [[cc, -ss, 0, t[0]], [ss, cc, 0, t[1]], [0, 0, 1, t[2]], [0, 0, 0, 1]]; D.waist.value = np.array(W, dtype=float) if ARR else tuple(map(tuple, W))
        if Z is not None: Z.value = conv([float(x) for x in o[4]])
        return ["ok"]
    if c == "record": H.record(); return [len(H.q)]
    if c == "restore":
        out = io.StringIO()
        with contextlib.redirect_stdout(out): H.restore(o[1])
        r = {}
        for l in out.getvalue().replace("\n ", " ").split("\n"):
            for key in ("robot.set(", "robot.setVelocity(", "T0 ="):
                if l.startswith(key): r[key] = [float(x) for x in re.findall(r"-?\d+\.?\d*(?:e[-+]?\d+)?", l[len(key):])]
        return [[R(x * 180 / math.pi) if abs(x) > 1e-12 else 0 for x in r["robot.set("]], [R(x) for x in r["robot.setVelocity("]], R(r["T0 ="][0])]
    if c == "dump":
        b = os.path.join(TMP, "b"); H.dumpToOpenHRP(b)
        def rows(n): return [[float(x) for x in l.split()] for l in open(b + n).read().split("\n") if l.strip()] if os.path.exists(b + n) else "absent"
        def angles(v): return [R(x * 180 / math.pi) for x in v]
        pos = rows(".pos"); pos = [[R(r[0], 1000), angles(r[1:31]), [R(x) for x in r[31:]]] for r in pos]
        hip = [[R(r[0], 1000)] + angles(r[1:]) for r in rows(".hip")]
        wa = [[R(r[0], 1000)] + angles(r[1:]) for r in rows(".waist")]
        z = rows(".zmp"); z = z if z == "absent" else [[R(r[0], 1000)] + [R(x) for x in r[1:]] for r in z]
        t = open(b + "_pos0.py").read(); m = re.match(r"dyninv_posinit = '(.*)'$", t.strip())
        p0 = [R(float(x)) for x in m.group(1).split()] if m else ["malformed", t]
        for n in (".pos", ".hip", ".waist", ".zmp", "_pos0.py"):
            if os.path.exists(b + n): os.remove(b + n)
        return [pos, hip, wa, [z] if z != "absent" else [], p0]
