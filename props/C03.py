from vf import check, build
SRC = ["src/task/task.cpp", "src/task/task-abstract.cpp", "src/task/task-pd.cpp", "src/task/task-unilateral.cpp", "src/task/task-conti.cpp", "src/task/multi-bound.cpp",
       "src/feature/feature-abstract.cpp", "src/sot/flags.cpp", "src/factory/pool.cpp"]
def mk(): return [build.harness("tasks", SRC, "tasks.cpp")]
def gen(r):
    h = []; v = lambda n: [r.randint(-9, 9) for _ in range(n)]; k0 = r.randint(1, 4); size = {1: 1, 2: 1, 3: 1}; fs = []; cols = {}; n = r.randint(1, 4); one = r.choice([0, 3, 6, 2])
    for _ in range(r.randint(15, 70)):
        k = k0 if r.random() < .85 else r.randint(1, 4); x = r.random(); i = r.randint(1, 3)
        if x < .2:
            m = r.randint(0, 5); c = one if one and r.random() < .93 else r.randint(1, 7)
            h.append(["feat", i, v(m), v(m), c, [v(c) for _ in range(m)]]); size[i] = m; cols[i] = c
        elif x < .22: h.append(["break", i])
        elif x < .28 and size[i] > 1 and i in cols:
            h.append(r.choice([["err", i, v(size[i])], ["dot", i, v(size[i])], ["fjac", i, [v(cols[i]) for _ in range(size[i])]]]))
        elif x < .34: h.append(["add", k, i if r.random() < .95 else 0]); fs += [h[-1][2]] if k == 2 and h[-1][2] else []
        elif x < .37: h.append(["clear", k]); fs = fs if k != 2 else []
        elif x < .43: h.append(["gain", k, r.randint(-8, 8)])
        elif x < .46: h.append(["wd", k, r.random() < .6])
        elif k == 2 and x < .49: h.append(["beta", 2, r.randint(-6, 6)])
        elif k == 2 and x < .51:
            # a derivative given from outside, as long as the error keeps its size
            e = sum(size[j] for j in fs); h += [["din", 2, v(e)], ["task", 2], ["gain", 2, 1], ["task", 2], ["dplug", 2]]
        elif k == 3 and x < .62:
            if x < .55: h += [["inf", 3, v(n)], ["sup", 3, v(n)], ["pos", 3, v(n)]]; h = h if r.random() < .5 else h + [["dt", 3, r.choice([1, 2, 4, 8])]]
            else: h.append(r.choice([["inf", 3, v(n)], ["sup", 3, v(n)], ["pos", 3, v(n)], ["dt", 3, r.choice([1, 2, 4])]]))
        elif k == 4 and x < .5: h.append(["reft", 4, r.randint(0, 99)])
        elif x < .56: h.append(["tick", k])
        elif x < .7: h.append([r.choice(["list", "show", "graph", "getwd"]), k])
        elif x < .85: h.append(["task", k])
        else: h.append([r.choice(["error", "errdot", "jac"]), k])
    return h
def units(r): return ([["unit", r.randrange(5), r.randrange(5)]] if r.random() < .5 else []) + gen(r)
def components():
    q = [{"Profile": f'"{p}"'} for p in ("one", "plain", "pd", "pdin", "uni", "conti")]
    return [check.Component("task", "TaskSpec", mk, explore={"quick": q, "thorough": q}, tconsts=q[1],
                            trace={"quick": lambda r: [units(r) for _ in range(500)], "thorough": lambda r: [units(r) for _ in range(15000)]})]
