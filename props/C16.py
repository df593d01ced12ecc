from vf import check, build
def mk(): return [build.harness("robot", ["src/tools/robot-utils.cpp", "src/tools/parameter-server.cpp", "src/factory/pool.cpp"], "robot.cpp")]
NAMES = ["a", "b", "lf", "lh", "rf", "rh"]
def robot(r):
    h = []; simple = set()
    for _ in range(r.randint(20, 80)):
        k = r.random(); s = r.randint(1, 2); rb = r.choice(["arm", "leg", "robot"]); i = r.randint(0, 3); v = lambda: r.randint(-9, 9)
        if k < .02: h.append(["create", rb])
        elif k < .05: h.append(r.choice([["list"], ["exists", rb]]))
        elif k < .1: h.append(["init", s, r.choice([0, 1, 1, 1]), rb if len(h) > 15 else "arm", r.choice(["u", "file"])])
        elif k < .14 and s not in simple and not any(o[0] == "simple" and o[1] == s for o in h): h.append(["simple", s, r.choice([-1, 1, 1, 1])])
        elif k < .26: h.append(["s", s, r.choice(["jid", "fid"]), r.choice(NAMES), i])
        elif k < .3: h.append(["s", s, "lim", i, v(), v()])
        elif k < .33: n = r.choice([0, 1, 6]); h.append(["s", s, "flim", i, [v() for _ in range(n)], [v() for _ in range(n)]])
        elif k < .37: h.append(["s", s, r.choice(["foot", "hand"]), r.choice(["Left", "Right", "LEFT", ""]), r.choice(["x", "y", "z"])])
        elif k < .4: h.append(["s", s, "imu", r.choice(["waist", "head"])] if r.random() < .5 else ["s", s, "sole", [v(), v(), v()]])
        elif k < .43: m = list(range(r.randint(0, 6))); r.shuffle(m); h.append(["s", s, "map", m])
        elif k < .55:
            kind = r.choice(["str", "int", "dbl", "bool"]); t = r.choice({"str": ["0", "1", "5", "-3", "12", "0.5", "-2.5", "true", "false", "", "zz", "a b"], "int": ["0", "1", "5", "-3", "12"], "dbl": ["0.5", "-2.5", "5", "0"], "bool": ["true", "false"]}[kind])
            h.append(["s", s, "par", r.choice([["k"], ["k", "l"], ["m", "n", "o"], ["m", "n"]]), kind, t])
        elif k < .7: h.append(["get", s, r.choice([["k"], ["k", "l"], ["m", "n", "o"], ["m", "n"], ["m"], ["q"]]), r.choice(["str", "int", "dbl", "bool"])])
        elif k < .73: h.append(["getmap", s])
        elif k < .76: h.append(["show", s])
        elif k < .79: h.append(["convert", s, r.choice(NAMES)])
        elif k < .84: h.append(["inrange", s, i, v()])
        elif k < .86: n = r.randint(0, 8); h.append(["mimics", [["j%d" % x, r.random() < .5] for x in range(n)]])
        else:
            q = r.choice(["jid", "jname", "lim", "fid", "fname", "flim", "spec", "txt", "map"]); h.append(["q", rb, q] + ([r.choice(NAMES)] if q in ("jid", "fid") else [i] if q in ("jname", "lim", "fname", "flim") else []))
    return h
A = [[5, 0], [0, 5], [-5, 0], [0, -5]] + [[a * x, b * y] for x, y in ((3, 4), (4, 3)) for a in (1, -1) for b in (1, -1)]
def conv(r):
    h = []; n = 0; v = lambda k: [r.randint(-50, 50) for _ in range(k)]; a = lambda: [r.choice(A) for _ in range(3)]
    for _ in range(r.randint(10, 40)):
        k = r.random()
        if k < .1: m = list(range(r.randint(0, 9))); r.shuffle(m); n = len(m); h.append(["map", r.choice(["std", "dg"]), m])
        elif k < .3: h.append([r.choice(["ju2s", "js2u"]), v(n)])
        elif k < .5: h.append([r.choice(["vu2s", "vs2u"]), a(), v(3), v(3), v(n)])
        elif k < .7: h.append([r.choice(["cu2s", "cs2u"]), a(), v(3), r.choice([1, -1]), v(n)])
        else: h.append(["bu2s", a(), v(3), r.choice(["q", "-q", "R"])] if r.random() < .5 else ["bs2u", a(), v(3)])
    return h
def comp(name, mod, prof, gen, n=250):
    e = [{"Profile": f'"{p}"'} for p in prof]
    return check.Component(name, mod, mk, explore={"quick": e, "thorough": e}, tconsts=e[0], trace={"quick": lambda r: [gen(r) for _ in range(n)], "thorough": lambda r: [gen(r) for _ in range(12 * n)]})
def components(): return [comp("store", "RobotUtil", ["registry", "joints", "forces", "texts", "params"], robot), comp("conversions", "Conv", ["joints", "base"], conv)]
