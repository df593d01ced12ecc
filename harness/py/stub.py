"""Stand-in of the dynamic_graph python package: entities with typed signals, plugs and recorded commands."""
import sys, types, importlib
import numpy as np
class SignalBase:
    def __init__(self, ent, name, typ, kind="input"):
        self.ent, self.short, self.typ, self.kind = ent, name, typ, kind
        self.plugged, self._v, self.has, self._t = None, None, False, 0
    def getName(self): return "%s(%s)::%s(%s)::%s" % (self.ent.cls, self.ent.name, self.kind, self.typ, self.short)
    @property
    def name(self): return self.short
    @property
    def value(self):
        if self.plugged is not None: return self.plugged.value
        if not self.has: raise RuntimeError("signal %s is not set" % self.getName())
        return self._v
    @value.setter
    def value(self, v):
        self.plugged, self._v, self.has = None, check(self.typ, v), True
    @property
    def time(self): return self.plugged.time if self.plugged is not None else self._t
    @time.setter
    def time(self, t): self._t = t
    def recompute(self, t): self._t = t; LOG.append(["recompute", self.ent.name + "." + self.short, t])
    def isPlugged(self): return self.plugged is not None
    def unplug(self): self.plugged = None
LOG = []
def check(typ, v):
    if typ == "flags":
        if not isinstance(v, Flags): raise TypeError("Flags expected")
        return v
    if typ == "double": return float(v)
    a = np.array(v, dtype=float)
    if typ == "vector":
        if a.ndim != 1: raise TypeError("vector expected")
    elif a.ndim != 2: raise TypeError("matrix expected")
    if typ == "homo" and a.shape != (4, 4): raise TypeError("homogeneous matrix expected")
    return a
def plug(a, b):
    if not isinstance(a, SignalBase) or not isinstance(b, SignalBase): raise TypeError("signals expected")
    if b.kind != "input": raise RuntimeError("cannot plug into an output")
    if {a.typ, b.typ} not in ({a.typ}, {"homo", "matrix"}): raise RuntimeError("types differ: %s %s" % (a.typ, b.typ))
    b.plugged, b.has = a, False
class Flags:
    def __init__(self, x=()):
        if isinstance(x, str):
            if set(x) - set("01"): raise ValueError(x)
            self.bits = x
        elif isinstance(x, bool): self.bits = str(int(x))
        else: self.bits = "".join("1" if b else "0" for b in x)
    def __str__(self): return self.bits
class Entity:
    entities = {}
    cls = "Entity"
    sigs = {}
    cmds = {}
    def __init__(self, name):
        self._name = name; self._s = {}; self.obj = ("obj", name)
        for s, t in self.sigs.items(): self.add_signal(s, t)
        Entity.entities[name] = self
    @property
    def name(self): return self._name
    def add_signal(self, s, t):
        kind = "input"
        if t.startswith(">"): kind, t = "output", t[1:]
        self._s[s] = SignalBase(self, s, t, kind)
    def __getattr__(self, n):
        if n.startswith("_"): raise AttributeError(n)
        if n in self._s: return self._s[n]
        if n in self.cmds:
            def f(*a):
                k = self.cmds[n]
                if len(a) != k: raise RuntimeError("command %s expects %d arguments" % (n, k))
                return self.command(n, *a)
            return f
        raise AttributeError("%s has no attribute %s" % (self.cls, n))
    def __setattr__(self, n, v):
        s = self.__dict__.get("_s", {})
        if n in s: s[n].value = v
        else: object.__setattr__(self, n, v)
    def command(self, n, *a):
        d = self.__dict__
        d.setdefault("_last", {})[n] = a; d.setdefault("_seq", []).append((n, a))
        if n == "add": d.setdefault("_add", []).append(a[0])
        if n == "clear": d["_add"] = []
        LOG.append([n, self.name] + [x if isinstance(x, (str, int, float)) else np.array(x).tolist() for x in a])
    def signal(self, n):
        if n not in self._s: raise RuntimeError("no signal " + n)
        return self._s[n]
    def signals(self): return list(self._s.values())
    def commands(self): return tuple(self.cmds)
def cls(name, sigs, cmds, **kw):
    return type(name, (Entity,), dict(cls=name, sigs=sigs, cmds=cmds, **kw))
FEAT = {"error": ">vector", "errordot": ">vector", "jacobian": ">matrix", "selec": "flags"}
FCMD = {"setReference": 1, "getReference": 0}
FeaturePoint6d = cls("FeaturePoint6d", dict(FEAT, position="homo", velocity="vector", Jq="matrix"), dict(FCMD, frame=1, getFrame=0, keep=0))
FeaturePoint6dRelative = cls("FeaturePoint6dRelative", dict(FEAT, position="homo", velocity="vector", Jq="matrix", positionRef="homo", JqRef="matrix", dotposition="homo", dotpositionRef="homo"), dict(FCMD, frame=1, getFrame=0, keep=0, initSdes=1))
FeatureGeneric = cls("FeatureGeneric", dict(FEAT, errorIN="vector", jacobianIN="matrix", errordotIN="vector"), FCMD)
FeatureVisualPoint = cls("FeatureVisualPoint", dict(FEAT, xy="vector", Z="double", Jq="matrix"), FCMD)
GainAdaptive = cls("GainAdaptive", {"error": "vector", "gain": ">double"}, {"set": 3, "setConstant": 1, "setByPoint": 4})
Task = cls("Task", {"error": ">vector", "jacobian": ">matrix", "task": ">vector", "controlGain": "double", "featureList": ">string"}, {"add": 1, "clear": 0, "list": 0, "setWithDerivative": 1, "getWithDerivative": 0})
VisualPointProjecter = cls("VisualPointProjecter", {"point3D": "vector", "transfo": "homo", "point3Dgaze": ">vector", "depth": ">double", "point2D": ">vector"}, {})
class OpPointModifier(Entity):
    cls = "OpPointModifier"
    sigs = {"positionIN": "homo", "jacobianIN": "matrix", "position": ">homo", "jacobian": ">matrix"}
    cmds = {"getTransformation": 0, "setTransformation": 1, "getEndEffector": 0, "setEndEffector": 1}
    def command(self, n, *a):
        if n == "setTransformation": object.__setattr__(self, "_T", check("homo", a[0]))
        elif n == "getTransformation": return self.__dict__.get("_T", np.eye(4))
        else: Entity.command(self, n, *a)
def optionalparentheses(f): return f
def install(src):
    sys.path.insert(0, src)
    def mod(name, **kw):
        m = types.ModuleType(name); m.__dict__.update(kw); sys.modules[name] = m; return m
    dg = mod("dynamic_graph", plug=plug); dg.__path__ = [src + "/dynamic_graph"]
    mod("dynamic_graph.entity", Entity=Entity); mod("dynamic_graph.signal_base", SignalBase=SignalBase)
    mod("dynamic_graph.script_shortcuts", optionalparentheses=optionalparentheses)
    sot = mod("dynamic_graph.sot"); sot.__path__ = [src + "/dynamic_graph/sot"]; dg.sot = sot
    core = mod("dynamic_graph.sot.core", Flags=Flags); core.__path__ = [src + "/dynamic_graph/sot/core"]; sot.core = core
    for f, c in (("feature_point6d", FeaturePoint6d), ("feature_point6d_relative", FeaturePoint6dRelative), ("feature_generic", FeatureGeneric), ("feature_visual_point", FeatureVisualPoint),
                 ("gain_adaptive", GainAdaptive), ("task", Task), ("visual_point_projecter", VisualPointProjecter), ("op_point_modifier", OpPointModifier)):
        mod("dynamic_graph.sot.core." + f, **{c.__name__: c})
