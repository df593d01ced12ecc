from vf import check, build
SRC = ["src/sot/sot.cpp", "src/sot/memory-task-sot.cpp", "src/sot/flags.cpp", "src/matrix/matrix-svd.cpp", "src/task/task.cpp", "src/task/task-abstract.cpp", "src/task/multi-bound.cpp", "src/factory/pool.cpp"] + \
    [f"src/feature/feature-{n}.cpp" for n in "abstract 1d generic point6d posture".split()]
def mk(): return [build.harness("registry", SRC, "registry.cpp")]
NM = ["a", "b", "c_1", "d-2", "e", "f", "right wrist"]
F = ("gen", "p6", "one", "post")
def hist(r):
    h = []; k = {}; ref = {}; l = {}
    if r.random() < .5:                                            # one holder and many held
        ns = r.sample(NM, r.randint(4, 7)); t = ns[0]; ts = r.random() < .4; h.append(["new", "sot" if ts else "task", t]); k[t] = "sot" if ts else "task"; ref[t] = "none"; l[t] = []
        for n in ns[1:]:
            q = "task" if ts else r.choice(F); h += [["new", q, n], ["push" if ts else "add", t, n], ["graph", t]][:3 if r.random() < .6 else 2]; k[n] = q; ref[n] = "none"; l[n] = []; l[t].append(n)
        h.append(["graph", t])
    for _ in range(r.randint(10, 70)):
        n = r.choice(NM); m = r.choice(NM); x = r.random(); kn = k.get(n)
        if x < .3 or not k:
            q = r.choice(["gen", "gen", "p6", "one", "post", "task", "task", "sot"]); h.append(["new", q, n])
            if not kn: k[n] = q; ref[n] = "none"; l[n] = []
        elif x < .4:
            if kn and not any(ref[y] == n or n in l[y] for y in k if y != n): h.append(["del", n]); del k[n], ref[n], l[n]
        elif x < .5: h.append([r.choice(["feature", "task"]), r.choice([n, n, n, "other"])])
        elif x < .6:
            if kn in F and m != n:
                h.append(["ref", n, m])
                if k.get(m) in F and kn != "post": ref[n] = m if k[m] == kn else "none"
        elif x < .63:
            if kn in F: h.append(["unref", n]); ref[n] = "none"
        elif x < .66:
            if kn in F: h.append(["getref", n])
        elif x < .76:
            if kn == "task" and m not in l[n] and m != n:
                h.append(["add", n, m])
                if k.get(m) in F: l[n].append(m)
            elif kn == "sot" and k.get(m) == "task" and m not in l[n]: h.append(["push", n, m]); l[n].append(m)
        elif x < .78:
            if kn in ("task", "sot"): h.append(["clear", n]); l[n] = []
        elif x < .95:
            if kn: h.append(["graph", n])
        else: h.append(["file", r.choice(["", "./", "sub/", "sub.d/", "./sub.d/"]), r.choice(["g", "graph_2", "my-graph"]), r.choice(["", ".v1"]), r.choice(["", ".dot"])])
    return h
def components():
    T = "<<" + ", ".join(f'"{x}"' for x in sorted(NM)) + ">>"; t = {"Names": T, "Kinds": "{}"}
    q = [{"Names": '<<"a", "b", "c-1">>', "Kinds": '{"gen", "p6", "task"}'}, {"Names": '<<"s", "t", "u">>', "Kinds": '{"task", "sot"}'}]
    th = q + [{"Names": '<<"a", "b", "c-1">>', "Kinds": '{"gen", "p6", "post", "task"}'}, {"Names": '<<"f", "s", "t", "u">>', "Kinds": '{"gen", "task", "sot"}'}]
    return [check.Component("registry", "Registry", mk, explore={"quick": q, "thorough": th}, tconsts=t,
                            trace={"quick": lambda r: [hist(r) for _ in range(300)], "thorough": lambda r: [hist(r) for _ in range(6000)]})]
