from vf import check, build
SRC = ["src/task/gain-adaptive.cpp", "src/task/gain-hyperbolic.cpp", "src/sot/flags.cpp", "src/utils/stop-watch.cpp", "src/factory/pool.cpp", "src/filters/madgwickahrs.cpp", "src/control/control-pd.cpp", "src/control/control-gr.cpp", "src/control/admittance-control-op-point.cpp"] + \
    [f"src/tools/{n}.cpp" for n in "smooth-reach motion-period com-freezer exp-moving-avg gradient-ascent binary-int-to-uint joint-limitator neck-limitation gripper-control clamp-workspace kalman".split()]
def mk(): return [build.harness("laws", SRC, "laws.cpp")]
def comp(module, name, gen, n, **kw):
    q = {"Profile": f'"{name}"'}
    return check.Component(name, module, mk, explore={"quick": q, "thorough": q}, tconsts=q, trace={"quick": lambda r: [gen(r) for _ in range(n)], "thorough": lambda r: [gen(r) for _ in range(20 * n)]}, **kw)
def units(gen, n=5):               # the same behaviours in other units of the values
    return lambda r: ([["unit", r.randrange(n)]] if r.random() < .5 else []) + gen(r)
def cube(r):
    p = [0, 1, 2]; r.shuffle(p); s = [r.choice([1, -1]) for _ in range(3)]
    inv = sum(1 for i in range(3) for j in range(i) if p[j] > p[i])
    if (s[0] * s[1] * s[2]) * (-1) ** inv < 0: s[0] = -s[0]
    return [[s[i] if j == p[i] else 0 for j in range(3)] for i in range(3)]
def iv(r, n, m=9): return [r.randint(-m, m) for _ in range(n)]
def pose(r, m=5): return [a + [r.randint(-m, m)] for a in cube(r)]
