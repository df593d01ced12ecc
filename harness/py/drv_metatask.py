import numpy as np
import stub
from dynamic_graph.sot.core import Flags
from dynamic_graph.sot.core import meta_tasks as mt, meta_tasks_kine as mk, meta_tasks_kine_relative as mr, meta_task_posture as mp, meta_task_visual_point as mv
from math import pi
I = []
class Dyn(stub.Entity):
    cls = "Dyn"
    def createOpPoint(self, op, ref):
        self.__dict__["made"].append([op, ref]); self.add_signal(op, ">homo"); self.add_signal("J" + op, ">matrix")
def R(x, unit=1):
    v = float(x) * unit; r = round(v); return r if abs(v - r) < 1e-9 else "off:%r" % v
def reset(): I.clear(); stub.LOG.clear(); mp.MetaTaskPosture.nbDof = None
def src(s):
    if s.plugged is not None: return s.plugged.ent.name + "." + s.plugged.short
    return "value" if s.has else "unset"
def val(s, unit=1):
    if s.plugged is not None: return ["plugged"]
    if not s.has: return ["unset"]
    v = np.array(s._v); return ["v", [R(x, unit) for x in v] if v.ndim == 1 else [[R(x, unit) for x in r] for r in v]]
def last(e, n, d=None): return e.__dict__.get("_last", {}).get(n, d)
def gain(g):
    L = g.__dict__.get("_seq", [])
    if not L: return ["unset"]
    n, a = L[-1]; return [{"set": "adaptive", "setConstant": "constant", "setByPoint": "bypoint"}[n]] + [R(x, 10) for x in a]
def sel(f):
    s = f.selec
    return str(s._v) if s.has else "unset"
def common(m, unit, sig):
    return [sel(m.feature), list(m.task.__dict__.get("_add", [])), src(m.gain.error), src(m.task.controlGain), gain(m.gain), val(sig, unit), m.rjd()]
def look(m):
    k = m.kind; f = m.feature
    if k in ("6d", "rel"):
        r = [m.dyn.made, src(f.position), src(f.Jq), src(m.opPointModif.positionIN), src(m.opPointModif.jacobianIN), last(f, "setReference", ["none"])[0], last(f, "frame", ["none"])[0]] + common(m, 1, m.featureDes.position)
        if k == "rel": r += [src(f.positionRef), src(f.JqRef), src(m.opPointModifBase.positionIN), src(m.opPointModifBase.jacobianIN), val(m.featureDes.positionRef)]
        return r
    if k == "com": return [src(f.errorIN), src(f.jacobianIN), last(f, "setReference", ["none"])[0]] + common(m, 4, m.featureDes.errorIN)
    if k == "posture":
        J = f.jacobianIN.value; return [src(f.errorIN), len(J) if (J == np.eye(len(J))).all() else "not the identity", last(f, "setReference", ["none"])[0]] + common(m, 4, m.featureDes.errorIN)
    return [m.dyn.made, src(m.proj.transfo), src(f.Jq), src(m.opPointModif.positionIN), src(m.opPointModif.jacobianIN), src(f.xy), src(f.Z), last(f, "setReference", ["none"])[0]] + common(m, 4, m.featureDes.xy) + [val(m.proj.point3D, 4)]
def pose(form, d):
    if form in ("t3",): return tuple(d)
    if form == "a3": return np.array(d, dtype=float)
    if form == "m13": return np.matrix(d, dtype=float)
    if form == "m31": return np.matrix(d, dtype=float).T
    if form == "M44t": return tuple(map(tuple, d))
    if form == "M44a": return np.array(d, dtype=float)
    if form == "M44m": return np.matrix(d, dtype=float)
    v = list(d[:3]) + [a * pi / 2 for a in d[3:]]
    return tuple(v) if form == "p6t" else np.array(v)
def gv(form, v):
    x = [a / 10. for a in v]
    return None if form == "none" else int(x[0]) if form == "int" else x[0] if form == "float" else tuple(x) if form == "tuple" else x
def sv(form, b): return None if form == "none" else Flags(b) if form == "flags" else b if form == "str" else [c == "1" for c in b]
def jv(form, v):
    x = [a / 4. for a in v]
    return x if form == "list" else tuple(x) if form == "tuple" else np.array(x) if form == "array" else x[0] if form == "scalar" else np.matrix(x) if form == "rowm" else np.matrix(x).T
def op(o):
    c = o[0]
    if c == "new":
        kind, name, dof, opn, ref, pre, rjd, opB, refB = o[1:]
        d = Dyn("dyn%d" % (len(I) + 1)); d.__dict__["made"] = []
        for n, t in (("position", "vector"), ("com", "vector"), ("Jcom", "matrix"), ("my" + opn, "homo"), ("Jmy" + opn, "matrix"), ("J" + opn + "2", "matrix")): d.add_signal(n, ">" + t if n != "position" else t)
        d.position.value = np.zeros(dof)
        if pre in (1, 2): d.add_signal(opn, ">homo")
        if pre in (1, 3): d.add_signal("J" + opn, ">matrix")
        a = [ref] if ref else []
        if kind == "6d": m = mk.MetaTaskKine6d(name, d, opn, *a)
        elif kind == "rel":
            kw = {}
            if ref: kw["opPointRef"] = ref
            if refB: kw["opPointRefBase"] = refB
            m = mr.MetaTaskKine6dRel(name, d, opn, opB, **kw)
        elif kind == "com": m = mk.MetaTaskKineCom(d, name)
        elif kind == "posture": m = mp.MetaTaskKinePosture(d, name)
        else: m = mv.MetaTaskVisualPoint(name, d, opn, *a)
        n = [0]
        if rjd:
            class TaskDyn(m.task.__class__):
                def resetJacobianDerivative(self): n[0] += 1
            m.task.__class__ = TaskDyn
        m.kind = kind; m.rjd = lambda: [rjd, n[0]]; I.append(m)
        return look(m)
    m = I[o[1] - 1]
    if c == "opmodif":
        setattr(m, "opmodif" if o[2] == "" else "opmodifBase", False if o[3] == "off" else tuple(map(tuple, o[4]))); return look(m)
    if c == "getopmodif":
        v = getattr(m, "opmodif" if o[2] == "" else "opmodifBase"); return ["off"] if v is False else ["on", [[R(x) for x in r] for r in np.array(v)]]
    if c == "ref":
        v = o[3] if m.kind in ("6d", "rel") else [x / 4. for x in o[3]]
        m.ref = np.array(v, dtype=float) if o[2] == "array" else tuple(map(tuple, v)) if m.kind in ("6d", "rel") else tuple(v); return look(m)
    if c == "getref":
        v = np.array(m.ref); return [[R(x, 4) for x in v] if v.ndim == 1 else [[R(x) for x in r] for r in v]]
    if c == "target": m.target = tuple(x / 4. for x in o[2]); return look(m)
    if c == "keep":
        m.dyn.position.time = o[2]; stub.LOG.clear(); m.keep(); return [list(e) for e in stub.LOG]
    if c == "look": return look(m)
    if c == "setgain": mt.setGain(m.gain, gv(o[2], o[3])); return look(m)
    if c in ("goto6d", "gotoNd", "goto6dRel", "gotoNdRel"):
        kw = {} if o[6] else {"resetJacobian": False}; p = pose(o[2], o[3]); g = gv(o[4], o[5])
        if c == "goto6d": mt.goto6d(m, p, g, **kw)
        elif c == "gotoNd": mk.gotoNd(m, p, sv(o[7], o[8]), g, **kw)
        elif c == "goto6dRel": mr.goto6dRel(m, p, pose(o[7], o[8]), g, **kw)
        else: mr.gotoNdRel(m, p, pose(o[7], o[8]), sv(o[9], o[10]), g, **kw)
        return look(m)
    if c == "goto3D":
        m.goto3D(tuple(x / 4. for x in o[2]), gv(o[3], o[4]), tuple(x / 4. for x in o[5]) if o[5] else None, sv(o[6], o[7])); return look(m)
    if c == "gotoq":
        q = None
        if o[4] != "none":
            q = [x / 4. for x in o[5]]
            q = tuple(q) if o[4] == "tuple" else tuple(x // 4 for x in o[5]) if o[4] == "ituple" else np.array(q) if o[4] == "array" else np.matrix(q).T if o[4] == "colm" else np.matrix(q)
        before = np.array(q).tolist() if q is not None else None
        try: m.gotoq(gv(o[2], o[3]), q, **{l[0]: jv(l[1], l[2]) for l in o[6]})
        finally:
            if q is not None and np.array(q).tolist() != before: return ["the posture of the caller was changed"]
        return look(m)
