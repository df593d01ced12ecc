from vf import check, build
SRC = ["src/sot/sot.cpp", "src/sot/memory-task-sot.cpp", "src/sot/flags.cpp", "src/matrix/matrix-svd.cpp", "src/task/task.cpp", "src/task/task-abstract.cpp",
       "src/task/multi-bound.cpp", "src/feature/feature-abstract.cpp", "src/feature/feature-generic.cpp", "src/feature/feature-posture.cpp", "src/factory/pool.cpp"]
def mk(): return [build.harness("sot", SRC, "sot.cpp")]
def histories(rng, n):
    hs = []
    for _ in range(n):
        h = [["setSize", rng.choice([1, 2, 3, 4])]] if rng.random() < .9 else []
        depth = 0
        for _ in range(rng.randint(5, 40)):
            k = rng.random(); i = rng.randint(1, 4)
            if k < .3: h.append(["push", i])
            elif k < .4: h.append(["remove", i])
            elif k < .55: h.append(["up", i])
            elif k < .7: h.append(["down", i])
            elif k < .73: h.append(["clear"])
            elif k < .78: h.append(["exist", i])
            else: h.append([rng.choice(["list", "display", "graph", "getSize"])])
        h.append(["list"]); hs.append(h)
    return hs
def components():
    return [check.Component("stack", "Sot", mk, explore={"quick": {"Profile": '"edit"'}}, trace={"quick": lambda r: histories(r, 150), "thorough": lambda r: histories(r, 3000)}, tconsts={"Profile": '"trace"'})]
