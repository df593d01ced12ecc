from vf import check
from props.py_mk import mk
A = [(5, 0), (0, 5), (-5, 0), (0, -5)] + [(c, s) for c in (3, -3) for s in (4, -4)] + [(c, s) for c in (4, -4) for s in (3, -3)]
def mul(a, b): return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
def rpy(r, p, y):
    return mul([[y[0], -y[1], 0], [y[1], y[0], 0], [0, 0, 5]], mul([[p[0], 0, p[1]], [0, 5, 0], [-p[1], 0, p[0]]], [[5, 0, 0], [0, r[0], -r[1]], [0, r[1], r[0]]]))
def homo(m, t): return m[0] + [125 * t[0]] + m[1] + [125 * t[1]] + m[2] + [125 * t[2], 0, 0, 0, 125]
def quat(rng):
    while True:
        q = [rng.randint(-9, 9) for _ in range(4)]; n = sum(x * x for x in q); k = round(n ** .5)
        if n and k * k == n and k <= 15: return q, k
def vec(rng):
    while True:
        v = [rng.randint(-9, 9) for _ in range(3)]; n = sum(x * x for x in v); k = round(n ** .5)
        if n and k * k == n: return v, k
def hist(rng):
    h = []
    for _ in range(40):
        a = lambda: list(rng.choice(A)); t = [rng.randint(-50, 50) for _ in range(3)]; f = rng.choice(["tuple", "array", "list"]); k = rng.randint(0, 9); w = [a(), a(), a()]
        if k == 0: h.append(["rotate", rng.choice("xyz"), a()])
        elif k == 1: h.append(["rpy2tr", w])
        elif k == 2: h.append(["toMatrix", f, t, w])
        elif k in (3, 4):
            if w[1][0] == 0: w[2] = [5, 0]
            w[1][0] = abs(w[1][0]); h.append(["toRPY", f, homo(rpy(*w), t), t, w])
        elif k == 5: h.append(["near", rng.choice([1, -1]), rng.randint(0, 20), a(), a()])
        elif k == 6: h.append(["dist", f, homo(rpy(*w), t), homo(rpy(a(), a(), a()), [rng.randint(-50, 50) for _ in range(3)])])
        elif k == 7: q, n = quat(rng); h.append(["quat", q, n])
        elif k == 8: v, n = vec(rng); h.append(["ortho", v, n, rng.randint(0, 10 ** 6)])
        else:
            if rng.random() < .5: h.append(["vtup", rng.choice(["flat", "rowm", "colm", "row", "col"]), [rng.randint(-99, 99) for _ in range(rng.randint(1, 7))]])
            else:
                c = rng.randint(1, 4); h.append(["mtup", rng.choice(["matrix", "array"]), [[rng.randint(-99, 99) for _ in range(c)] for _ in range(rng.randint(1, 5))], rng.random() < .5])
    return h
def components():
    c = {"Angles": '"all"'}
    return [check.Component("rotations", "Rotations", mk("matrix"), explore={"quick": {"Angles": '"small"'}, "thorough": c}, tconsts=c,
                            trace={"quick": lambda r: [hist(r) for _ in range(150)], "thorough": lambda r: [hist(r) for _ in range(4000)]})]
