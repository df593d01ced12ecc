from vf import check
from props.py_mk import mk
LIMBS = "rleg rhip rknee rankle lleg lhip lknee lankle chest head rarm rshoulder relbow rwrist rhand larm lshoulder lelbow lwrist lhand".split()
LEN = dict(zip(LIMBS, [6, 3, 1, 2, 6, 3, 1, 2, 2, 2, 6, 3, 1, 2, 1, 6, 3, 1, 2, 1]))
def rot(r):
    M = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    for _ in range(r.randint(0, 5)):
        M = [[M[i][1], -M[i][0], M[i][2]] for i in range(3)] if r.random() < .5 else [[M[i][0], M[i][2], -M[i][1]] for i in range(3)]
    return M
def ints(r, n): return [r.randint(-20, 20) for _ in range(n)]
def homo(r): M = rot(r); t = ints(r, 3); return [M[i] + [t[i]] for i in range(3)] + [[0, 0, 0, 1]]
def pose(r):
    f = r.choice(["t3", "a3", "m13", "m31", "M44t", "M44a", "M44m", "p6t", "p6a"])
    return [f, ints(r, 3) if f in ("t3", "a3", "m13", "m31") else homo(r) if f[0] == "M" else ints(r, 3) + [r.randint(0, 3) for _ in range(3)]]
def gain(r):
    f = r.choice(["none", "int", "float", "tuple", "list"])
    return [f, [] if f == "none" else [10 * r.randint(1, 9)] if f == "int" else [r.randint(1, 99)] if f == "float" else [r.randint(1, 99) for _ in range(r.choice([1, 3, 4]))]]
def sel(r, n):
    f = r.choice(["none", "flags", "str", "list"]); return [f, "".join(r.choice("01") for _ in range(r.randint(1, n)))]
def new(r, k, i): op = r.choice(["op", "rh", "com2"]); return ["new", k, r.choice(["", "t", "long name"]) + str(i), r.choice([36, 36, 37, 40]), op, r.choice(["", "hip"]), r.randint(0, 3), r.random() < .5, r.choice(["ob", "lh", op]), r.choice(["", "ankle"])]
def hist(r):
    kinds = []; h = []
    for s in range(r.randint(4, 30)):
        if not kinds or len(kinds) < 3 and r.random() < .15:
            kinds.append(r.choice(["6d", "rel", "com", "posture", "posture", "visual"])); h.append(new(r, kinds[-1], len(kinds))); continue
        i = r.randint(1, len(kinds)); k = kinds[i - 1]; x = r.random()
        if x < .1: h.append(["look", r.randint(1, len(kinds))])
        elif x < .2: h.append(["getref", i])
        elif x < .3: h.append(["setgain", i] + gain(r))
        elif x < .6 and k in ("6d", "rel", "visual"):
            w = r.choice(["", "B"]) if k == "rel" else ""
            h.append(["getopmodif", i, w] if r.random() < .3 else ["opmodif", i, w, r.choice(["on", "off"]), homo(r)])
        elif x < .65 and k in ("6d", "rel"): h.append(["keep", i, r.randint(0, 99)])
        elif x < .7: h.append(["ref", i, r.choice(["tuple", "array"]), homo(r) if k in ("6d", "rel") else ints(r, {"com": 3, "visual": 2, "posture": 36}[k])])
        elif k == "6d": h.append(["goto6d", i] + pose(r) + gain(r) + [r.random() < .5] if r.random() < .5 else ["gotoNd", i] + pose(r) + gain(r) + [r.random() < .5] + sel(r, 6))
        elif k == "rel": h.append(["goto6dRel", i] + pose(r) + gain(r) + [r.random() < .5] + pose(r) if r.random() < .5 else ["gotoNdRel", i] + pose(r) + gain(r) + [r.random() < .5] + pose(r) + sel(r, 6))
        elif k == "visual": h.append(["target", i, ints(r, 3)] if r.random() < .2 else ["goto3D", i, ints(r, 3)] + gain(r) + [r.choice([[], ints(r, 2)])] + sel(r, 2))
        elif k == "posture":
            n = [o for o in h if o[0] == "new"][i - 1][3]; f = r.choice(["none", "none", "tuple", "ituple", "array", "colm", "rowm"])
            q = [] if f == "none" else [4 * v for v in ints(r, n)] if f == "ituple" else ints(r, n); ls = []
            for l in r.sample(LIMBS, r.randint(0, 4)):
                jf = r.choice(["list", "list", "tuple", "array", "rowm", "colm", "scalar"]); m = LEN[l]
                if r.random() < .04: m += 2
                ls.append([l, jf, [] if jf == "list" and r.random() < .4 else ints(r, 1 if jf == "scalar" else m)])
            if r.random() < .03: ls.append(["tail", "list", []])
            h.append(["gotoq", i] + gain(r) + [f, q, ls])
    return h
NAMES = ["position", "reference", "Jq", "error", "selec", "velocity", "other", ""]
NAMESR = ["basePosition", "otherPosition", "baseReference", "otherReference", "JqBase", "JqOther", "error", "jacobian", "selec", "position", ""]
def fhist(r):
    h = []; kinds = []
    for s in range(r.randint(3, 16)):
        if not kinds or len(kinds) < 3 and r.random() < .2:
            k = r.choice(["fp", "fpr"]); kinds.append(k); name = "f%d" % len(kinds)
            g = lambda: r.choice([["none", []], ["sig", []], ["val", homo(r)], ["arr", homo(r)]])
            h.append(["new", "fp", name, r.random() < .5, r.random() < .5] + r.choice([["none", []], ["val", homo(r)], ["arr", homo(r)]]) if k == "fp" else ["new", "fpr", name, r.random() < .5, r.random() < .5, [g() for _ in range(4)]]); continue
        i = r.randint(1, len(kinds)); x = r.random()
        if x < .3: h.append(["signal", i, r.choice(NAMES if kinds[i - 1] == "fp" else NAMESR)])
        elif x < .45: h.append(["frame", i, r.choice(["current", "desired"])])
        elif x < .55: h.append(["keep", i])
        elif x < .7: h.append(["selec", i, "".join(r.choice("01") for _ in range(6))])
        elif x < .8: h.append(["names", i])
        else: h.append(["setref", i, homo(r)])
    return h
def components():
    K = '{"6d", "rel", "com", "posture", "visual"}'
    c = {"Kinds": K, "MaxInst": 1}
    return [check.Component("metatask", "MetaTask", mk("metatask"), explore={"quick": c, "thorough": {"Kinds": K, "MaxInst": 2}}, tconsts=c,
                            trace={"quick": lambda r: [hist(r) for _ in range(300)], "thorough": lambda r: [hist(r) for _ in range(6000)]}),
            check.Component("featpos", "FeatPos", mk("featpos"), explore={"quick": {"Small": "TRUE"}, "thorough": {"Small": "FALSE"}}, tconsts={"Small": "TRUE"},
                            trace={"quick": lambda r: [fhist(r) for _ in range(300)], "thorough": lambda r: [fhist(r) for _ in range(6000)]})]
