from vf import check, build
from props.laws_mk import units
FA = ["src/feature/feature-abstract.cpp", "src/sot/flags.cpp", "src/factory/pool.cpp"]
def mk(): return [build.harness("features", FA + ["src/feature/feature-generic.cpp", "src/feature/feature-1d.cpp"], "features.cpp")]
def mk2(): return [build.harness("featmisc", FA + ["src/feature/feature-1d.cpp", "src/feature/feature-vector3.cpp", "src/feature/feature-posture.cpp", "src/feature/feature-visual-point.cpp", "src/feature/feature-joint-limits.cpp"], "featmisc.cpp")]
def vec(r, n, m=9): return [r.randint(-m, m) for _ in range(n)]
def bits(r): return [r.random() < .5 for _ in range(r.randint(0, 5))]
def gen(r):
    h = []; ref = {}
    for _ in range(r.randint(10, 60)):
        i = r.randint(1, 3); k = r.random()
        if k < .16: h.append(["err", i, vec(r, r.randint(1, 6))])
        elif k < .26: c = r.randint(1, 4); h.append(["jac", i, [vec(r, c) for _ in range(r.randint(1, 6))]])
        elif k < .34: h.append(["dot", i, vec(r, r.randint(1, 6))])
        elif k < .36: h.append(["undot", i])
        elif k < .46: h.append(["sel", i, bits(r), r.random() < .6])
        elif k < .56: h.append(["ref", i, r.choice([0, 9] + [j for j in (1, 2, 3) if j != i] * 2)])
        elif k < .6: h.append(["refname", i, r.choice([0] + [j for j in (1, 2, 3) if j != i])])
        elif k < .64: h.append([r.choice(["getref", "graph"]), i])
        else: h.append([r.choice(["error", "error", "errordot", "errordot", "jacobian", "dim"]), i])
    return h
ROT = []
def rots():
    if not ROT:
        import itertools
        for p in itertools.permutations(range(3)):
            for s in itertools.product((1, -1), repeat=3):
                m = [[s[i] if p[i] == j else 0 for j in range(3)] for i in range(3)]
                d = sum(m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]) for i in range(3))
                if d == 1: ROT.append(m)
    return ROT
def misc(r):
    k = r.choice(["one", "dir", "post", "img", "lim"]); h = []; n = r.randint(1, 7); c = r.randint(1, 4); w = ["error", "jacobian", "dim"] + {"post": ["errordot"], "lim": ["width"]}.get(k, [])
    for _ in range(r.randint(8, 40)):
        if r.random() < .5: h.append(["get", k, r.choice(w)]); continue
        if k == "one": h.append(r.choice([["oe", vec(r, n)], ["oj", [vec(r, c) for _ in range(n)]]]))
        elif k == "dir": h.append(r.choice([["v", vec(r, 3)], ["R", r.choice(rots())], ["vj", [vec(r, c) for _ in range(6)]], ["vd", vec(r, 3)]]))
        elif k == "post" and r.random() < .12:
            # the robot changes: the selection is forgotten with the first degree of freedom selected afterwards
            n = r.randint(1, 7); h += [["q", vec(r, n)], ["p", vec(r, n)], ["pd", vec(r, n)]] + ([["dof", r.randint(0, n), True]] if r.random() < .7 else [])
        elif k == "post": h.append(r.choice([["q", vec(r, n)], ["p", vec(r, n)], ["pd", vec(r, n)], ["dof", r.randint(0, n), r.random() < .7], ["dof", r.randint(0, n), True]]))
        elif k == "img": h.append(r.choice([["xy", vec(r, 2)], ["z", r.choice([1, 2, 4, 8, 0, -1])], ["xj", [vec(r, c, 3) for _ in range(6)]], ["rxy", vec(r, 2)], ["xsel", bits(r), r.random() < .5], ["ref", r.choice([0, 1, 1, 1, 9])]]))
        else: h.append(r.choice([["jq", vec(r, n)], ["J"], ["J"], ["jsel", bits(r), r.random() < .5], ["actuate"]]))
    if k == "lim":
        l, u = [0] * n, [1] * n; g = [["jl", l], ["ju", u]]
        for o in h:
            if o[0] == "jq" and r.random() < .15: n = r.randint(1, 7); l, u = [0] * n, [2] * n; g += [["jl", l], ["ju", u], ["jq", vec(r, n)]]
            elif o[0] == "jq": g.append(["jq", vec(r, n)])
            elif o == ["J"]:
                # both limits change together: the widths stay powers of two
                x = r.random()                     # or one of them, so that they stay so
                if x < .5: l = vec(r, n); u = [x + r.choice([1, 2, 4, 8]) for x in l]; g += [["jl", l], ["ju", u]]
                elif x < .75: l = [x - r.choice([1, 2, 4, 8]) for x in u]; g.append(["jl", l])
                else: u = [x + r.choice([1, 2, 4, 8]) for x in l]; g.append(["ju", u])
            else: g.append(o)
        h = g
    return h
def components():
    c = {"N": 2, "Profile": '"x"'}
    ms = [{"Profile": f'"{p}"'} for p in ("one", "dir", "post", "resize", "img", "lim")]
    return [check.Component("generic", "FeatGen", mk, explore={"quick": c, "thorough": {"N": 3, "Profile": '"x"'}}, tconsts=c,
                            trace={"quick": lambda r: [units(gen)(r) for _ in range(400)], "thorough": lambda r: [units(gen)(r) for _ in range(12000)]}),
            check.Component("kinds", "FeatMisc", mk2, explore={"quick": ms, "thorough": ms}, tconsts=ms[0],
                            trace={"quick": lambda r: [units(misc)(r) for _ in range(500)], "thorough": lambda r: [units(misc)(r) for _ in range(15000)]})]
