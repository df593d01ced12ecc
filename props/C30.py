from vf import check, build
from props.laws_mk import cube, iv, pose, units
SRC = ["src/sot/flags.cpp", "src/factory/pool.cpp", "src/feature/visual-point-projecter.cpp"] + [f"src/feature/feature-{n}.cpp" for n in "abstract point6d point6d-relative pose line-distance".split()]
def mk(): return [build.harness("pose", SRC, "pose.cpp")]
# which evaluations are exact (mirrors Fine in specs/Pose.tla: it only chooses what to ask)
def R(h): return [r[:3] for r in h]
def T(h): return [r[3] for r in h]
def tr(a): return [list(x) for x in zip(*a)]
def mm(a, b): return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
def mv(a, v): return [sum(a[i][k] * v[k] for k in range(3)) for i in range(3)]
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def sub(a, b): return [x - y for x, y in zip(a, b)]
def add(a, b): return [x + y for x, y in zip(a, b)]
def hm(a, b): return [r + [t] for r, t in zip(mm(R(a), R(b)), add(mv(R(a), T(b)), T(a)))]
def hi(a): r = tr(R(a)); return [x + [-t] for x, t in zip(r, mv(r, T(a)))]
ID = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0]]
def trace(r): return r[0][0] + r[1][1] + r[2][2]
def good(r, x):
    t = trace(r)
    return t in (1, 3) or (t == 0 and sum(p * q for p, q in zip([r[2][1] - r[1][2], r[0][2] - r[2][0], r[1][0] - r[0][1]], x)) == 0)
def turn(r): return trace(r) != -1
def jac(r, n): return [iv(r, n, 4) for _ in range(6)]
def col(m, j): return [x[j] for x in m]
def ad(h, v): w = mv(R(h), v[3:]); return add(mv(R(h), v[:3]), cross(T(h), w)) + w
def sel(r): return [1 if r.random() < .6 else 0 for _ in range(6)]
def near(r, h):
    """a pose whose rotation differs from that of h by a quarter or a third of turn, or nothing"""
    while True:
        p = pose(r)
        if turn(mm(tr(R(h)), R(p))): return p
def again(h, r, fed):
    """one input of an evaluation changes, and nothing else, between two evaluations: (which k to use, which evaluation)"""
    if h[-1][0] == "get" and h[-1][1] in fed and r.random() < .35: return fed[h[-1][1]], None
    if h[-1][0] == "in" and len(h) > 1 and h[-2][0] == "get" and r.random() < .8: return .99, h[-2][1]
    return r.random(), None
def g_p6(r):
    h = [["new", "p6"]]; s = dict(pos=None, jq=None, rpos=None, rvel=None); ref = False; frame = "desired"; sl = [1] * 6
    for _ in range(r.randint(6, 40)):
        k, w0 = again(h, r, {"jacobian": .25, "errordot": .45, "error": .1})
        if k < .2: s["pos"] = near(r, s["rpos"] if ref and s["rpos"] else ID); h.append(["in", "pos", s["pos"]])
        elif k < .3: s["jq"] = jac(r, r.randint(1, 4)); h.append(["in", "jq", s["jq"]])
        elif k < .4 and ref: s["rpos"] = near(r, s["pos"] or ID); h.append(["in", "rpos", s["rpos"]])
        elif k < .5 and ref: s["rvel"] = iv(r, 6, 5); h.append(["in", "rvel", s["rvel"]])
        elif k < .56: ref = r.random() < .8; s["rpos"] = s["rvel"] = None; h.append(["ref", ref])
        elif k < .6: f = r.choice(["current", "desired", "current", "desired", "other"]); frame = f if f != "other" else frame; h.append(["frame", f])
        elif k < .62: h.append(["getFrame"])
        elif k < .68: sl = sel(r); h.append(["selec", sl])
        elif k < .72 and s["pos"]:
            h.append(["keep"])
            if ref: s["rpos"] = s["pos"]
        else:
            w = w0 or r.choice(["error", "error", "jacobian", "jacobian", "errordot", "dim"])
            if s["pos"] and (not ref or s["rpos"]) and w in ("error", "errordot") and any(sl[3:]):
                rel = mm(tr(R(s["rpos"] if ref else ID)), R(s["pos"])); rel = tr(rel) if frame == "current" else rel
                if not turn(rel): continue
                if w == "errordot" and ref and s["rvel"]:
                    x = s["rvel"][3:]; x = mv(tr(R(s["rpos"])), x) if frame == "current" else mv(tr(R(s["pos"])), x)
                    if not good(rel, x): continue
            h.append(["get", w])
    return h
def g_rel(r):
    h = [["new", "rel"]]; s = dict(pos=None, pref=None, jq=None, jref=None, dpos=None, dpref=None); ref = "none"; sl = [1] * 6; n = r.randint(1, 3)
    for _ in range(r.randint(6, 40)):
        k, w0 = again(h, r, {"jacobian": .35, "error": r.choice([.1, .5])})
        if k < .3: x = r.choice(["pos", "pref"]); s[x] = pose(r); h.append(["in", x, s[x]])
        elif k < .4: x = r.choice(["jq", "jref"]); s[x] = jac(r, n); h.append(["in", x, s[x]])
        elif k < .48: ref = r.choice(["none", "point", "relative"]); s["dpos"] = s["dpref"] = None; h.append(["ref", ref])
        elif k < .58 and ref != "none": s["dpos"] = pose(r); h.append(["in", "dpos", s["dpos"]])
        elif k < .66 and ref == "relative": s["dpref"] = pose(r); h.append(["in", "dpref", s["dpref"]])
        elif k < .7: sl = sel(r); h.append(["selec", sl])
        elif k < .74 and s["pos"] and s["pref"]: ref = "relative"; s["dpos"] = s["pos"]; s["dpref"] = s["pref"]; h.append(["freeze"])
        else:
            w = w0 or r.choice(["error", "error", "error", "jacobian", "dim"])
            if w == "error" and s["pos"] and s["pref"] and any(sl[3:]):
                des = ID if ref == "none" or not s["dpos"] else s["dpos"] if ref == "point" else hm(hi(s["dpos"]), s["dpref"]) if s["dpref"] else ID
                if not turn(R(hm(hm(hi(s["pos"]), s["pref"]), hi(des)))): continue
            h.append(["get", w])
    return h
def g_pose(se3):
    def g(r):
        b = pose(r); s = dict(a=ID, fa=ID, b=b, fb=ID, ja=None, jb=None, des=ID, nu=[0] * 6); n = r.randint(1, 3); h = [["new", "poseSE3" if se3 else "pose"], ["in", "b", b]]
        def fafb(): return hm(hm(hi(s["fa"]), hi(s["a"])), hm(s["b"], s["fb"]))
        def X(m, c): x = ad(hi(m), c); return x if se3 else mv(R(fafb()), x[:3]) + x[3:]
        for _ in range(r.randint(6, 40)):
            k, w0 = again(h, r, {"jacobian": .3, "errordot": .5, "error": r.choice([.1, .4])})
            if k < .25: x = r.choice(["a", "fa", "b", "fb"]); s[x] = pose(r, 3); h.append(["in", x, s[x]])
            elif k < .35: x = r.choice(["ja", "jb"]); s[x] = jac(r, n); h.append(["in", x, s[x]])
            elif k < .45:
                f = fafb(); s["des"] = [q + [r.randint(-3, 3)] for q in R(f)] if r.random() < .5 else near(r, f); h.append(["in", "des", s["des"]])
            elif k < .52: s["nu"] = iv(r, 6, 3); h.append(["in", "nu", s["nu"]])
            elif k < .57: h.append(["selec", sel(r)])
            elif k < .62: s["des"] = fafb(); h.append(["keep"])
            else:
                w = w0 or r.choice(["error", "jacobian", "errordot", "pose", "dim"]); e = hm(hi(s["des"]), fafb())
                if w == "error" and not (turn(R(e)) and (not se3 or good(R(e), T(e)))): continue
                if w == "jacobian":
                    if not s["jb"]: continue
                    if se3:
                        if R(e) != R(ID): continue
                    else:
                        if not turn(R(e)): continue
                        bad = False
                        for j in range(n):
                            c = X(s["fb"], col(s["jb"], j))
                            if s["ja"]: c = sub(c, X(hm(s["fa"], fafb()), col(s["ja"], j)))
                            bad |= not good(R(e), c[3:])
                        if bad: continue
                if w == "errordot":
                    if se3:
                        if R(e) != R(ID): continue
                    elif not (turn(R(e)) and good(R(e), mv(tr(R(s["des"])), s["nu"][3:]))): continue
                h.append(["get", w])
        return h
    return g
def g_line(r):
    h = [["new", "line"]]; s = {}
    for _ in range(r.randint(6, 40)):
        k, w0 = again(h, r, {"jacobian": r.choice([.1, .25, .4]), "error": r.choice([.1, .25, .4])})
        if k < .2: s["pos"] = pose(r); h.append(["in", "pos", s["pos"]])
        elif k < .35: s["v"] = [r.randint(-1, 1) for _ in range(3)]; h.append(["in", "v", s["v"]])
        elif k < .5: s["r"] = iv(r, 3, 4) + [r.randint(-1, 1) for _ in range(3)]; h.append(["in", "r", s["r"]])
        elif k < .6: s["jq"] = jac(r, r.randint(1, 3)); h.append(["in", "jq", s["jq"]])
        else:
            w = w0 or r.choice(["error", "jacobian", "jacobian", "line"])
            if w != "line" and "pos" in s and "v" in s and "r" in s:
                c = cross(mv(R(s["pos"]), s["v"]), s["r"][3:])
                if sum(x * x for x in c) not in (1, 2, 4): continue
            h.append(["get", w])
    return h
def g_proj(r):
    h = [["new", "proj"]]; s = {}
    for _ in range(r.randint(4, 30)):
        k, w0 = again(h, r, {x: r.choice([.1, .4]) for x in ("gaze", "depth", "image")})
        if k < .25: s["m"] = pose(r); h.append(["in", "m", s["m"]])
        elif k < .5: s["p"] = iv(r, 3, 6); h.append(["in", "p", s["p"]])
        else:
            w = w0 or r.choice(["gaze", "depth", "image"])
            if w == "image" and len(s) == 2 and mv(R(hi(s["m"])), sub(s["p"], T(s["m"])))[2] not in (1, 2, 4): continue
            h.append(["get", w])
    return h
def components():
    out = []
    for n, g, k in [("p6", g_p6, 300), ("rel", g_rel, 200), ("pose", g_pose(False), 200), ("poseSE3", g_pose(True), 200), ("line", g_line, 200), ("proj", g_proj, 100)]:
        g = units(g)
        q = {"Profile": f'"{n}"'}
        out.append(check.Component(n, "Pose", mk, explore={"quick": q, "thorough": q}, tconsts=q, trace={"quick": (lambda r, g=g, k=k: [g(r) for _ in range(k)]), "thorough": (lambda r, g=g, k=k: [g(r) for _ in range(20 * k)])}))
    return out
