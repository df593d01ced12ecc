import numpy as np
import stub
from dynamic_graph.sot.core import Flags
from dynamic_graph.sot.core.feature_position import FeaturePosition
from dynamic_graph.sot.core.feature_position_relative import FeaturePositionRelative
I = []
class Src(stub.Entity):
    cls = "Src"; sigs = dict({"h%d" % k: ">homo" for k in (1, 2, 3, 4)}, pos=">homo", jac=">matrix", j1=">matrix", j2=">matrix")
def reset(): I.clear(); stub.LOG.clear(); stub.Entity.entities.clear()
def src(s):
    if s.plugged is not None: return ["sig", s.plugged.ent.name + "." + s.plugged.short]
    if not s.has: return ["unset"]
    return ["v", [[round(x) if abs(x - round(x)) < 1e-9 else "off" for x in r] for r in np.array(s._v).tolist()]]
def full(s): return s.ent.name + "." + s.short
def last(e, n): return e.__dict__.get("_last", {}).get(n, ["none"])[0]
def look(m):
    E = stub.Entity.entities; f = E[m.key]; r = E[m.key + "_ref"]
    if m.kind == "fp": s = [f.position, f.Jq, r.position]
    else: s = [f.positionRef, f.position, r.positionRef, r.position, f.JqRef, f.Jq]
    return [m.obj_.name, [src(x) for x in s], str(f.selec._v), last(f, "setReference"), last(f, "frame")]
class M: pass
def give(s, g):
    if g[0] == "none": return None
    if g[0] == "sig": return s
    t = tuple(map(tuple, [[float(x) for x in r] for r in g[1]])); return t if g[0] == "val" else np.array(t)
def op(o):
    c = o[0]
    if c == "new":
        s = Src("src"); m = M(); m.kind, m.key = o[1], o[2]
        if m.kind == "fp":
            kw = {}
            if o[3]: kw["signalPosition"] = s.pos
            if o[4]: kw["signalJacobian"] = s.jac
            if o[5] != "none": kw["referencePosition"] = give(None, [o[5], o[6]])
            m.obj_ = FeaturePosition(o[2], **kw)
        else:
            kw = {}
            if o[3]: kw["JqBase"] = s.j1
            if o[4]: kw["JqOther"] = s.j2
            for k, (n, g) in enumerate(zip(("basePosition", "otherPosition", "baseReference", "otherReference"), o[5])):
                if g[0] != "none": kw[n] = give(getattr(s, "h%d" % (k + 1)), g)
            m.obj_ = FeaturePositionRelative(o[2], **kw)
        I.append(m); return look(m)
    m = I[o[1] - 1]; f = m.obj_
    if c == "signal": s = f.signal(o[2]); return [full(s), getattr(f, o[2]) is s]
    if c == "names": return [full(s) for s in f.signals()]
    if c == "frame": f.frame(o[2]); return look(m)
    if c == "selec": f.selec.value = Flags(o[2]); return look(m)
    if c == "keep": stub.LOG.clear(); f.keep(); return [list(e) for e in stub.LOG]
    if c == "setref": (f.reference if m.kind == "fp" else f.otherReference).value = tuple(map(tuple, o[2])); return look(m)
