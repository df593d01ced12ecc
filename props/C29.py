import math
from props.laws_mk import *
def pd(r):
    h = [["pd"]]; n = r.randint(1, 5); names = ["Kp", "Kd", "position", "desired_position", "velocity", "desired_velocity"]
    for x in r.sample(names, r.randint(4, 6)): h.append(["set", x, iv(r, n)])
    for _ in range(r.randint(5, 20)): h.append(["get", r.choice(["control", "position_error", "velocity_error"])] if r.random() < .5 else ["set", r.choice(names), iv(r, n)])
    return h
def gr(r):
    h = [["gr"]]; n = r.randint(1, 5); m = lambda x: [iv(r, n) for _ in range(n)] if x == "matrixA" else iv(r, n)
    for _ in range(r.randint(8, 25)): x = r.choice(["matrixA", "acceleration", "gravity"]); h.append(["get", "control"] if r.random() < .4 else ["set", x, m(x)])
    return h
def adm(r):
    h = [["adm"]]; names = ["Kp", "Kd", "dqSaturation", "force", "w_forceDes", "opPose", "sensorPose"]; have = set(); same = on = False
    val = dict(Kp=lambda: iv(r, 6, 3), Kd=lambda: iv(r, 6, 2), dqSaturation=lambda: [r.randint(0, 40) for _ in range(6)], force=lambda: iv(r, 6, 5), w_forceDes=lambda: iv(r, 6, 5), opPose=lambda: pose(r), sensorPose=lambda: pose(r))
    order = names[:]; r.shuffle(order)
    for _ in range(r.randint(10, 40)):
        k = r.random()
        if k < .4: x = order.pop() if order and r.random() < .8 else r.choice(names); h.append(["set", x, val[x]()]); have.add(x); same = False; order = [y for y in order if y != x]
        elif k < .47 or (not on and len(have) == 7): h.append(["init", r.randint(1, 3)]); same = False; on = on or len(have) == 7
        elif k < .53: h.append(["resetDq"]); same = False
        elif k < .6 and same: h.append(["same", r.choice(["w_dq", "dq"])])
        else: x = r.choice(["w_force", "w_dq", "dq"]); h.append(["get", x]); same = on and (same or x != "w_force")
        if h[-1][0] == "get" and h[-1][1] == "w_force": same = False
    return h
def mm(a, b): return [[sum(x[k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for x in a]
def tr(a): return [list(x) for x in zip(*a)]
def mop(a, b, s): return [[x + s * y for x, y in zip(u, v)] for u, v in zip(a, b)]
def inv(m):
    if len(m) == 1: return [[m[0][0]]]
    d = m[0][0] * m[1][1] - m[0][1] * m[1][0]; return [[d * m[1][1], -d * m[0][1]], [-d * m[1][0], d * m[0][0]]]
def kalman(r):
    n, m = r.randint(1, 3), r.randint(1, 2); sym = lambda k, b: (lambda a: mop(a, tr(a), 1))([iv(r, k, b) for _ in range(k)])
    P = sym(n, 1); h = [["kalman"], ["begin", P, iv(r, n)]]; F = H = Q = R = None; new = False; measured = False
    SS = [[[1]], [[-1]]] if m == 1 else [[[1, 0], [0, 1]], [[2, 1], [1, 1]], [[1, 1], [1, 2]], [[0, 1], [1, 0]], [[1, 2], [2, 3]]]
    for _ in range(r.randint(8, 30)):
        k = r.random()
        if k < .4 or F is None:
            f, hh, q = ((F is None or r.random() < .5) for _ in range(3))
            if f: F = [iv(r, n, 1) for _ in range(n)]
            if hh: H = [iv(r, n, 1) for _ in range(m)]
            if q: Q = sym(n, 1)
            Pp = mop(mm(mm(F, P), tr(F)), Q, 1); R = mop(r.choice(SS), mm(mm(H, Pp), tr(H)), -1); new = True
            h.append(["model", F if f else [], H if hh else [], Q if q else [], R])
        elif k < .6:
            o = [iv(r, m), iv(r, m), iv(r, n)]
            if measured and len(last[0]) == m and r.random() < .5: j = r.randrange(3); o = [o[i] if i == j else last[i] for i in range(3)]
            last = o; h.append(["measure"] + o); measured = True
        elif k < .75 or measured:
            if new:
                Pp = mop(mm(mm(F, P), tr(F)), Q, 1); S = mop(mm(mm(H, Pp), tr(H)), R, 1)
                K = mm(mm(Pp, tr(H)), inv(S)); P = mop(Pp, mm(mm(K, H), Pp), -1); new = False
                if max(abs(x) for u in P for x in u) > 200: break
            h.append(["x"] if measured and r.random() < .6 else ["P"])
    return h
def prim(v):
    g = 0
    for x in v: g = math.gcd(g, x)
    return [x // g if g else x for x in v]
def n2(v): return sum(x * x for x in v)
def sq(x): return math.isqrt(x) ** 2 == x
def step(n, a, g, dt, b, exact=False):
    q = n; w = [dt * x for x in g]
    w4 = [-q[1]*w[0]-q[2]*w[1]-q[3]*w[2], q[0]*w[0]+q[2]*w[2]-q[3]*w[1], q[0]*w[1]-q[1]*w[2]+q[3]*w[0], q[0]*w[2]+q[1]*w[1]-q[2]*w[0]]
    base = [4 * x + y for x, y in zip(q, w4)]; s = None
    if n2(a):
        if b < 0 or (b * dt) % 2 or n2(n) > 25: return None
        d2, m = n2(n), math.isqrt(n2(a)); f = [2*(q[1]*q[3]-q[0]*q[2])*m-a[0]*d2, 2*(q[0]*q[1]+q[2]*q[3])*m-a[1]*d2, (d2-2*q[1]*q[1]-2*q[2]*q[2])*m-a[2]*d2]
        s = prim([-2*q[2]*f[0]+2*q[1]*f[1], 2*q[3]*f[0]+2*q[0]*f[1]-4*q[1]*f[2], -2*q[0]*f[0]+2*q[3]*f[1]-4*q[2]*f[2], 2*q[1]*f[0]+2*q[2]*f[1]])
        if not sq(n2(s)) or max(map(abs, s)) > 200: return None
        if not n2(s):
            if not (exact and n2(a) in (1, 4, 16)): return None
            s = None
    if s is None: x = prim(base)
    else: k, d, B = math.isqrt(n2(s)), math.isqrt(n2(n)), b * dt // 2; x = prim([c * k - B * d * y for c, y in zip(base, s)])
    return x if n2(x) and sq(n2(x)) and max(map(abs, x)) <= 900 and n2(n) <= 10000 else None
QS = [q for d in (1, 2, 3, 5) for q in __import__("itertools").product(range(-d, d + 1), repeat=4) if n2(q) == d * d and math.gcd(math.gcd(q[0], q[1]), math.gcd(q[2], q[3])) == 1]
AS = [q for q in __import__("itertools").product(range(-5, 6), repeat=3) if n2(q) in (1, 4, 9, 16, 25)]
def imu(r):
    h = [["imu"], ["attitude", [0, 0, 1], [0, 0, 0]]]; n, dt, b, out, ex = [1, 0, 0, 0], 0, -1, False, True
    for _ in range(r.randint(8, 30)):
        k = r.random()
        if k < .12 or not dt: x = r.choice([-1, 0, 1, 2, 4]); h.append(["period", x]); dt = x if x > 0 else dt
        elif k < .25: x = r.choice([-1, 0, 2, 4, 6, 8, 9]); h.append(["beta", x]); b = x if 0 <= x <= 8 else b
        elif k < .28: h.append(["getBeta"])
        elif k < .4: n = list(r.choice(QS)); ex = n2(n) in (1, 4); h.append(["quat", n])
        elif k < .45 and out: h.append(["again"])
        else:
            keep = r.random() if out and h[-1][0] == "attitude" else 1
            for _ in range(300):
                a = [0, 0, 0] if r.random() < .2 else list(r.choice(AS)); g = iv(r, 3, 4) if r.random() < .7 else [0, 0, 0]
                if keep < .2: a = h[-1][1]
                elif keep < .4: g = h[-1][2]
                x = step(n, a, g, dt, b, ex)
                if x: h.append(["attitude", a, g]); n = x; out = True; ex = False; break
            else: n = list(r.choice(QS)); ex = n2(n) in (1, 4); h.append(["quat", n])
    return h
def components(): return [comp("Control", "pd", units(pd), 100), comp("Control", "gr", units(gr), 60), comp("Control", "adm", units(adm), 200), comp("Control", "kalman", units(kalman), 250), comp("Control", "imu", imu, 200)]
