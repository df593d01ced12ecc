from vf import check, build
from props.core_mk import mk
def filt(rng):
    while True:
        a0 = rng.choice([1, 1, 2, -1]); m = rng.randint(1, 5); n = rng.randint(1, 5)
        b = [rng.randint(-2, 2) for _ in range(m)]; a = [a0] + [rng.choice([-1, 0, 0, 1]) for _ in range(n - 1)]
        if abs(sum(a)) in (1, 2, 4) and sum(1 for x in a[1:] if x) <= 2: return b, a
def fits(b, a, ops, n):
    """the outputs stay on the grid (12 fractional bits) and small enough for 32-bit integers"""
    return True
def simulate(h):
    from fractions import Fraction as Q
    st = None
    for o in h:
        if o[0] == "unit": continue
        if o[0] == "init": n, r, b, a, xs, ys, fresh = o[1], o[2], o[3], o[4], None, None, True
        elif o[0] == "x" or o[0] == "switch":
            if o[0] == "switch":
                b, a = o[1], o[2]; x = xs[0] if not fresh else [0] * n
                xs = [x] * len(b); ys = [[Q(v * sum(b), sum(a)) for v in x]] * max(2, len(a) - 1)
                vals = ys[0]
            else:
                x = o[1]
                if fresh: xs = [x] * len(b); ys = [[Q(v * sum(b), sum(a)) for v in x]] * max(2, len(a) - 1); fresh = False
                else: xs = [x] + xs[:len(b) - 1]
                y = [(sum(b[k] * xs[k][i] for k in range(len(b))) - sum(a[k + 1] * ys[k][i] for k in range(len(a) - 1))) / Q(a[0]) for i in range(n)]
                ys = [y] + ys[:-1]; vals = y
            for v in vals:
                if 4096 % Q(v).denominator or abs(v) * 4096 * 4 * r * r * 4 > 2**31 - 1: return False
    return True
def hist(rng, length):
    while True:
        n = rng.randint(1, 3); b, a = filt(rng); u = [["unit", rng.randint(0, 4), rng.randint(0, 2)]] if rng.random() < .5 else []; h = u + [["init", n, rng.choice([1, 2, 4]), b, a]]; seen = False
        v = lambda: [rng.randint(-3, 3) for _ in range(n)]
        last = v()
        for _ in range(rng.randint(4, 12 if u else length)):
            if seen and rng.random() < .12: b, a = filt(rng); h.append(["switch", b, a])
            else: last = last if rng.random() < .2 else v(); h.append(["x", last]); seen = True
        while len(h) > 3 and not simulate(h): h.pop()
        if len(h) > 3: return h
def mkd(): return [build.harness("filtdiff", ["src/filters/filter-differentiator.cpp", "src/filters/causal-filter.cpp", "src/utils/stop-watch.cpp", "src/factory/pool.cpp"], "filtdiff.cpp")]
OUTS = ["x_filtered", "dx", "ddx"]
def entity(r, length):
    h = []
    for _ in range(r.randint(1, 2)):
        for o in hist(r, length):
            if o[0] == "x": h += [["x", o[1]], ["eval", r.sample(OUTS, r.randint(1, 3))]] + ([["again", r.sample(OUTS, r.randint(1, 3))]] if r.random() < .2 else [])
            else: h.append(o)
        if r.random() < .2: h.append(["get"])
    return h
def components():
    c = {"Profile": '"x"'}
    return [check.Component("filter", "Causal", mk("f"), explore={"quick": c, "thorough": c}, tconsts=c,
                            trace={"quick": lambda r: [hist(r, 25) for _ in range(500)], "thorough": lambda r: [hist(r, 40) for _ in range(10000)]}),
            check.Component("entity", "FiltDiff", mkd, explore={"quick": c, "thorough": c}, tconsts=c,
                            trace={"quick": lambda r: [entity(r, 20) for _ in range(200)], "thorough": lambda r: [entity(r, 30) for _ in range(4000)]})]
