from fractions import Fraction as Q
from vf import check, build
def mkf(): return [build.harness("fir", ["src/matrix/fir-filter.cpp", "src/matrix/derivator.cpp", "src/factory/pool.cpp"], "linear.cpp", extra=["-DFIR"])]
def mki(): return [build.harness("integ", ["src/matrix/integrator-euler.cpp", "src/matrix/integrator-abstract.cpp", "src/factory/pool.cpp"], "linear.cpp")]
def val(r, kind): n = {"double": 1, "quat": 4, "matrix": 4, "mat": 2}.get(kind) or 3; return [r.randint(-9, 9) for _ in range(n)]
def cf(r, kind, m=3): return [[r.randint(-m, m) for _ in range(2)] for _ in range(2)] if kind == "mat" else r.randint(-m, m)
def fir(r):
    kind = r.choice(["double", "vec", "mat"]); h = [["kind", kind, 1]] + ([["unit", r.randint(0, 4), 0]] if r.random() < .6 else []); n = 0; wide = r.random() < .1
    def resize(k): return [["size", k]] + ([["set", i, cf(r, kind)] for i in range(k)] if kind == "mat" else [])
    for _ in range(r.randint(15, 60)):
        k = r.random()
        if k < .08: n = r.choice([9, 17, 40]) if wide else r.randint(0, 6); h += resize(n)
        elif k < .3: h.append(["set", r.randint(0, n if r.random() < .1 else max(0, n - 1)), cf(r, kind)])
        elif k < .34: h.append(["getc", r.randint(0, n)] if r.random() < .7 else ["getsize"])
        elif k < .6: h.append(["x", val(r, kind)])
        else: h.append(["fir"])
    if wide:
        for _ in range(45): h += [["x", val(r, kind)], ["fir"]] + ([["set", r.randint(0, n - 1), cf(r, kind)]] if n and r.random() < .6 else [])
    return h
def deriv(r):
    kind = r.choice(["double", "vec", "matrix", "quat"]); h = [["kind", kind, 1]] + ([["unit", r.randint(0, 4), r.randint(0, 4)]] if r.random() < .6 else [])
    if len(h) > 1: h.append(["rate", r.choice([1, 2, 5, 10, 1000])])
    for _ in range(r.randint(15, 60)):
        k = r.random(); h.append(["rate", r.choice([1, 2, 5, 10, 1000])] if k < .07 else ["x", val(r, kind)] if k < .5 else ["der"])
    return h
def fits(h):
    """all values stay on the grid of the specification"""
    rate, c, d, mi, mo, x, mat = 200, [], [], [], [], None, False
    mul = lambda a, v: [sum(Q(a[i][j]) * v[j] for j in range(2)) for i in range(2)] if mat else [a * e for e in v]
    for o in h:
        if o[0] == "kind": mat = o[1] == "mat"
        elif o[0] == "rate": rate = o[1]
        elif o[0] == "x": x = o[1]
        elif o[0] == "num": c = c + [o[1]]
        elif o[0] == "den": d = d + [o[1]]
        elif o[0] == "popnum": c = c[:-1]
        elif o[0] == "popden": d = d[:-1]
        elif o[0] == "init" and c and d and x is not None and d[-1] == ([[1, 0], [0, 1]] if mat else 1): mi = [list(map(Q, x))] * len(c); mo = [list(map(Q, x))] * len(d)
        elif o[0] in ("int", "both") and mi and len(mi) == len(c) and len(mo) == len(d) and x is not None:
            if len(mo) < 2 and o != ["int", "sout"]: continue
            n = [list(map(Q, x))]
            for i in range(1, len(c)): n.append([rate * (a - b) for a, b in zip(n[i - 1], mi[i - 1])])
            mi = n; s = [Q(0)] * len(x)
            for a, v in zip(c, mi): s = [p + q for p, q in zip(s, mul(a, v))]
            for a, v in zip(d[:-1], mo): s = [p - q for p, q in zip(s, mul(a, v))]
            mo = mo[:-1] + [s]
            for i in range(len(d) - 2, -1, -1): mo[i] = [p + q / rate for p, q in zip(mo[i], mo[i + 1])]
            for v in mi + mo:
                for e in v:
                    if 256 % Q(e).denominator or abs(e) * 256 * 40 > 2**31 - 1: return False
    return True
def scaled(r):
    """the same behaviour in other units of values and of time: the coefficients of the derivatives follow"""
    while True:
        kind = r.choice(["double", "vec", "mat"]); one = [[1, 0], [0, 1]] if kind == "mat" else 1; m = r.randint(0, 2)
        h = [["kind", kind, 200], ["unit", r.randint(1, 4), r.choice([0, 1, 2]), m], ["rate", r.choice([1, 2, 4])]] + [["num", cf(r, kind, 2), i] for i in range(r.randint(1, 3))] + [["den", cf(r, kind, 1), i - m] for i in range(m)] + [["den", one]]
        h += [["x", [0 for _ in val(r, kind)]], ["init"]]; n = len(h)
        for _ in range(r.randint(4, 12)): h += [["x", val(r, kind)]] if r.random() < .5 else [r.choice([["int", "sout"], ["int", "derivative"], ["both"]])]
        while not fits(h): h.pop()
        if len(h) > n + 2: return h
def integ(r):
    if r.random() < .3: return scaled(r)
    while True:
        kind = r.choice(["double", "vec", "mat"]); h = [["kind", kind, 200], ["rate", r.choice([1, 2, 4])]]
        one = [[1, 0], [0, 1]] if kind == "mat" else 1
        for _ in range(r.randint(1, 3)): h.append(["num", cf(r, kind, 2)])
        for _ in range(r.randint(0, 2)): h.append(["den", cf(r, kind, 1)])
        h += [["den", one]] if r.random() < .9 else []
        h += [["x", val(r, kind)], ["init"]]
        for _ in range(r.randint(5, 25)):
            k = r.random()
            if k < .04: h += [["popden"], ["den", cf(r, kind, 1)]]
            elif k < .08: h += [["num", cf(r, kind, 2)], ["init"]]
            elif k < .1: h.append(r.choice([["popnum"], ["popden"], ["init"]]))
            elif k < .12: h.append(["rate", r.choice([1, 2])])
            elif k < .2: h.append(["period"] if r.random() < .5 else ["show"])
            elif k < .45: h.append(["x", val(r, kind)])
            else: h.append(r.choice([["int", "sout"], ["int", "derivative"], ["both"]]))
        while not fits(h): h.pop()
        if len(h) > 8: return h
def comp(name, mk, gen, n=300):
    q = {"Profile": f'"{name}"'}
    return check.Component(name, "Linear", mk, explore={"quick": q, "thorough": q}, tconsts=q, trace={"quick": lambda r: [gen(r) for _ in range(n)], "thorough": lambda r: [gen(r) for _ in range(15 * n)]})
def components(): return [comp("fir", mkf, fir), comp("deriv", mkf, deriv), comp("integ", mki, integ)]
