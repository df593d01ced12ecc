from vf import check, build
def mk(): return [build.harness("traj", ["src/tools/trajectory.cpp", "src/tools/joint-trajectory-entity.cpp", "src/factory/pool.cpp"], "traj.cpp", libs=["-lboost_regex"])]
def traj(r, zero=True):
    v = lambda lo=0, hi=4: [r.randint(-99, 99) for _ in range(r.randint(lo, hi))]
    j = r.randint(0, 4)
    pts = [[[r.randint(-99, 99) for _ in range(j + 5)] if r.random() < .93 else v(), v(), v(), v()] for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8]))]
    st = [0, 0] if zero and r.random() < .15 else [r.randint(0, 3), r.randint(1, 3)]
    return [r.randint(0, 999), *st, r.choice(["", "map", "Odom_1", "x"]), [r.choice(["a", "b_1", "LARM", "7"]) for _ in range(r.randint(1, 6))], pts]
def text(r):
    h = []
    for _ in range(r.randint(8, 30)):
        k = r.random(); t = traj(r)
        if k < .3: h.append(["parse", t, r.randint(0, 2)])
        elif k < .38: h.append(["cutnames", t, r.randint(0, len(t[4]) - 1)])
        elif k < .5:
            if t[5]: n = r.randint(0, len(t[5]) - 1); h.append(["cutpoints", t, n, r.randint(0, 3)])
        else: h.append(r.choice([["read"], ["show"], ["copy", "construct"], ["copy", "assign"]]))
    return h
def play(r):
    h = []; pool = [traj(r) for _ in range(r.randint(1, 5))]; outs = ["position", "com", "zmp", "waist", "seqid"]
    if r.random() < .5: h.append(["init", r.choice(pool)])
    for _ in range(r.randint(15, 70)):
        k = r.random()
        if k < .2: h.append(["in", r.choice(pool)])
        elif k < .22: h.append(["init", r.choice(pool)])
        else: h.append(["eval", r.sample(outs, r.randint(1, 5)) if r.random() < .6 else outs])
    return h
def comp(name, gen, n=300):
    q = {"Profile": f'"{name}"'}
    return check.Component(name, "Traj", mk, explore={"quick": q, "thorough": q}, tconsts=q, trace={"quick": lambda r: [gen(r) for _ in range(n)], "thorough": lambda r: [gen(r) for _ in range(15 * n)]})
def components(): return [comp("text", text), comp("play", play)]
