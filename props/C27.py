from props.laws_mk import *
def vecs(n):                       # vectors of norm n
    base = {0: [[0, 0]], 1: [[1]], 2: [[1, 1, 1, 1]], 3: [[1, 2, 2]], 4: [[4, 0]], 5: [[3, 4]], 6: [[2, 4, 4], [4, 4, 2]], 7: [[2, 3, 6]], 8: [[8]], 9: [[1, 4, 8]], 10: [[6, 8]], 12: [[4, 8, 8]]}
    return base.get(n, [[n]])
def err(r, n): v = list(r.choice(vecs(n))); r.shuffle(v); return [x * r.choice([1, -1]) for x in v]
def gain(r):
    h = []
    for _ in range(2):
        kind = r.choice(["adaptive", "hyperbolic"]); n, d, z = 0, 1, 0; form = r.randint(0, 2)
        if form == 0: h.append([kind, []])
        elif form == 1: h.append([kind, [r.randint(1, 9)]])
        else:
            v0, vi, n, z = r.randint(1, 9), r.randint(1, 9), r.choice([-1, 1, 2]), r.randint(-2, 4); h.append([kind, [v0, vi, n] + ([z] if kind[0] == "h" else [])])
            if v0 == vi: n = 0
        if kind[0] == "a": z = 0
        for _ in range(r.randint(5, 25)):
            k = r.random()
            if k < .1: h.append(["setConstant", r.randint(1, 9)]); n, d, z = 0, 1, 0
            elif k < .3:
                v0, vi, n, z, d = r.randint(1, 9), r.randint(1, 9), r.choice([-1, 1, 2, 3] if kind[0] == "a" else [-2, -1, 1, 2]), r.randint(-2, 4), 1
                h.append(["set", v0, vi, n] + ([z] if kind[0] == "h" else []))
                if kind[0] == "a": z = 0
                if v0 == vi: n = 0
            elif k < .45 and kind[0] == "a":
                v0, vi, d, n = r.randint(1, 9), r.randint(1, 9), r.choice([1, 2, 3, 5]), r.randint(1, 4); h.append(["point", v0, vi, d, n])
                if v0 == vi: n, d = 0, 1
            elif k < .5: h.append(["force"])
            else:
                ok = [x for x in range(13) if ((n * x) % d == 0 and -3 <= n * x // d <= 14 if kind[0] == "a" else -4 <= n * (x - z) <= 4)]
                if ok: h.append(["error", err(r, r.choice(ok))])
    return h
def reach(r):
    h = [["reach"]]; n = r.randint(1, 4); arm, t, t0, ln, mode, q = True, 0, -1, 1, 2, 0; started = goal = False
    def known(k): return mode not in (0, 1, 2) or k == 0 or k >= ln or mode == 0 or 2 * k == ln or (q > 0 and (3 * k == ln or 3 * k == 2 * ln))
    for _ in range(r.randint(10, 40)):
        k = r.random()
        if k < .15: h.append(["start", iv(r, n)]); started = True
        elif k < .27:
            goal = True; mode = mode; ln = r.choice([1, 2, 3, 4, 5, 6] if mode == 0 else [1, 2, 3, 3, 6]); h.append(["goal", iv(r, n), ln]); arm = True
        elif k < .4:
            mode = r.choice([0, 1, 2, 2, 1, 3]); q = r.randint(1, 4) if mode == 1 else r.randint(1, 3) if mode == 2 else 0
            h.append(["param", mode, q])
            if mode == 0 and ln not in (1, 2, 3, 4, 5, 6): pass
        elif k < .45: h.append(["getters"])
        elif started and goal:
            ds = [d for d in range(0 if arm else 1, 5) if (arm or known(t + d - t0)) and (d or t == 0 or arm)]
            if arm: ds = [d for d in ds if d or t == 0]
            if ds:
                d = r.choice(ds); t += d
                if arm: t0, arm = t, False
                h.append(["reached", d])
    return h
def period(r):
    h = [["period"]]; n = 0
    for _ in range(r.randint(5, 25)):
        k = r.random()
        if k < .2 or not n: n = r.randint(0, 4); h.append(["resize", n])
        elif k < .6:
            ty = r.choice(["constant", "sin", "cos"]); p = r.randint(1, 9) if ty == "constant" else r.choice([1, 2, 4]) if ty == "sin" else r.choice([1, 2, 3, 4, 6])
            h.append(["motion", r.randint(1, n), [ty, p, r.randint(0, 12), r.randint(-5, 5), r.randint(-5, 5)]])
        else: h.append(["moved", r.randint(0, 30)])
    return h
def freezer(r):
    h = [["freezer"]]; n = r.randint(1, 3); pg = False; seen = False
    for _ in range(r.randint(5, 30)):
        if r.random() < .3: pg = not pg
        h.append(["com", iv(r, n), pg, r.choice([1, 1, 2, 50, 99, 100, 150, 199, 200, 201, 400])])
        if r.random() < .2: h.append(["again"])
    return h
def average(r):
    h = [];
    for _ in range(2):
        if r.random() < .6:
            h.append(["average"]); n = r.randint(1, 3); bits = 0
            for _ in range(20):
                if r.random() < .3: al = r.choice([0, 1, 2, 3, 4]); h.append(["alpha", al]); bits += 0
                elif bits < 5: h.append(["update", iv(r, n)]); bits += 1
                else: h.append(["again"]); h.append(["alpha", 0]); h.append(["update", iv(r, n)]); bits = 1
        else:
            h.append(["ascent"]); n = r.randint(1, 3)
            for _ in range(10): h.append(["gradient", iv(r, n), r.randint(-3, 3)] if r.random() < .8 or len(h) < 3 or h[-1][0] == "ascent" else ["again"])
        h.append(["sign", r.randint(-3, 3)])
    return h
def components(): return [comp("Gains", "gain", gain, 200), comp("Gains", "reach", units(reach), 200), comp("Gains", "period", units(period), 150), comp("Gains", "freezer", units(freezer), 150), comp("Gains", "average", units(average), 150)]
