from vf import check, build
from props.laws_mk import units
def mk(): return [build.harness("device", ["src/tools/device.cpp", "src/tools/periodic-call.cpp", "src/factory/pool.cpp"], "device.cpp")]
def simu(): return [build.harness("simu", ["src/tools/device.cpp", "src/tools/robot-simu.cpp", "src/tools/periodic-call.cpp", "src/factory/pool.cpp"], "device.cpp", extra=["-DSIMU"])]
def gens(r):
    h = gen(r)
    for _ in range(r.randint(0, 6)): i = r.randint(1, len(h)); h[i:i] = [r.choice([["getdt"], ["dt", r.choice([1, 2, 5, 10, 50])]])]
    return h
def rots():
    from props.C04 import rots as r; return r()
def gen(r):
    h = []; n = r.choice([6, 7, 8, 9, 12]); v = lambda m, s=4: [r.randint(-s, s) for _ in range(m)]
    q = lambda m: v(3) + [r.randint(-1, 2) for _ in range(3)] + v(m - 6)
    h.append(["resize", n]); mode = 1; sane = True; vb = tb = pb = False; u = None
    def bnd(w, ok=True):
        m = n if ok else n + r.choice([-1, 1]); lo = [x - 1 - r.randint(0, 3) for x in v(m, 2)]; hi = [x + r.randint(0, 9) for x in lo]
        if w == "vel": lo[:3] = [-abs(x) for x in lo[:3]]; hi[:3] = [abs(x) for x in hi[:3]]  # a turning base must be allowed not to translate
        return ["bounds", w, lo, hi]
    vmul = True
    for _ in range(r.randint(10, 50)):
        k = r.random()
        if k < .05: h.append(bnd("pos")); pb = True
        elif k < .1: h.append(bnd("vel")); vb = True
        elif k < .12: h.append(bnd("tor")); tb = True
        elif k < .13: h.append(bnd(r.choice(["pos", "vel", "tor"]), False))
        elif k < .16: h.append(["set", q(n)])
        elif k < .18: h.append(["root", v(3), r.choice(rots())])
        elif k < .20 and all(o[0] != "nan" for o in h): h.append(["sanity", r.random() < .6])
        elif k < .22 and mode == 2: h.append(["setvel", v(3) + [0, 0, 0] + v(n - 6)])
        elif k < .24: h.append(["fail", r.choice(["before", "after"]), r.choice(["", "std", "str", "int"])])
        elif k < .28:
            o = r.choice([["second"], ["none"], ["type", "noInteg"], ["type", "oneInteg"], ["type", "twoInteg"], ["type", "what"]])
            h.append(o); m = {"second": 2, "none": 0, "noInteg": 0, "oneInteg": 1, "twoInteg": 2}.get(o[-1]); mode = mode if m is None else m; u = None
        elif k < .3: n = r.choice([6, 7, 8, 10]); h.append(["resize", n]); u = None
        elif k < .36: h.append(["get", r.choice(["state", "vel", "motor", "sensors"])])
        else:
            if u is None or r.random() < .5:
                if r.random() < .05:
                    # only refused while the checks are on
                    if all(o[0] != "sanity" for o in h): h.append(["nan"]); u = 1
                    else: continue
                elif r.random() < .5: h.append(["u", v(r.randint(0, n - 6))]); u = 4
                elif mode == 0: h.append(["u", q(n)]); u = 4
                elif mode == 1 and r.random() < .4:
                    w = [0, 0, 0]; w[r.randint(0, 2)] = r.choice([-8, -4, 4, 8, 12]); h.append(["u", [0, 0, 0] + w + v(n - 6)]); u = 4
                else: h.append(["u", v(3) + [0, 0, 0] + v(n - 6)]); u = 4
            h.append(["inc", r.choice([4, 4, 2, 1])]); h.append(["get", r.choice(["state", "state", "vel", "motor"])])
    return h
def components():
    q = [{"Profile": f'"{p}"'} for p in ("checks", "one", "two", "none")]
    return [check.Component("device", "Device", mk, explore={"quick": q, "thorough": q}, tconsts=q[0],
                            trace={"quick": lambda r: [units(gen)(r) for _ in range(500)], "thorough": lambda r: [units(gen)(r) for _ in range(15000)]}),
            check.Component("simulation", "Device", simu, explore={"quick": {"Profile": '"simu"'}, "thorough": {"Profile": '"simu"'}}, tconsts={"Profile": '"simu"'},
                            trace={"quick": lambda r: [units(gens)(r) for _ in range(150)], "thorough": lambda r: [units(gens)(r) for _ in range(4000)]})]
