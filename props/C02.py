from vf import check
from props.laws_mk import units
from props.C01 import mk
def rows(rng, n):
    while True:
        r = [[rng.randint(1, n), rng.choice([1, -1, 2, -2])] for _ in range(rng.randint(1, 3))]
        if all(sum(1 for x in r if x[0] == j) <= 2 for j in range(1, n + 1)): return r
def hist(rng, nmax=6, length=40):
    n = rng.randint(2, nmax); h = [["setSize", n]]
    if rng.random() < .7: h.append(["basis", rng.randint(0, 2), rng.randint(0, 1)])
    def task(i):
        r = rows(rng, n); return ["task", i, r, [rng.randint(-3, 3) for _ in r]]
    for i in range(1, 5): h.append(task(i))
    st = []
    for _ in range(rng.randint(length // 3, length)):
        k = rng.random(); i = rng.randint(1, 4)
        if k < .22:
            if i not in st or rng.random() < .08: h.append(["push", i]); st.append(i)   # (the same task may be there twice)
            else: h.append([rng.choice(["up", "down"]), i])
        elif k < .28:
            h.append(["remove", i])
            if i in st: st.remove(i)
            if i in st and rng.random() < .5: h += [["control"], task(i)] + [["control"]] * 2
        elif k < .38: h.append(task(i))
        elif k < .43: h.append(["q0", [] if rng.random() < .3 else [rng.randint(-2, 2) for _ in range(n if rng.random() < .9 else n + 1)]])
        elif k < .47: h.append(rng.choice([["noproj"], ["badproj"], ["proj", sorted(rng.sample(range(1, n + 1), rng.randint(1, n)))]]))
        elif k < .50: h.append(["damp", rng.choice([12, 15, 22, 25, 1])])
        elif k < .55: h.append(["max", rng.choice([-1, -1, 1, 3201, 12801, 51201, 200001])])
        elif k < .59: h.append(["sel", 4, rng.random() < .5])
        elif k < .61:
            n2 = rng.randint(2, nmax)
            if n2 != n:
                n = n2; h += [["setSize", n], ["noproj"], ["q0", []]] + [task(x) for x in range(1, 5)]
        elif k < .64: h.append(rng.choice([["getMax"], ["getSize"], ["list"], ["tick"]]))
        else: h.append(["control"])
    h.append(["control"])
    return h
def posture(rng):
    n = 6 + rng.randint(1, 3); h = [["setSize", n]]
    for i in range(1, 5):
        r = rows(rng, n); h.append(["task", i, r, [rng.randint(-3, 3) for _ in r]])
    def post():
        m = sorted(rng.sample(range(7, n + 1), rng.randint(1, n - 6))) if rng.random() < .3 else list(range(7, n + 1))
        return ["posture", [rng.randint(-3, 3) for _ in range(n)], [rng.randint(-3, 3) for _ in range(n)], m]
    h.append(post())
    for i in rng.sample([1, 2, 3, 4], rng.randint(0, 3)): h.append(["push", i])
    h += [["push", 5], ["accel", rng.random() < .7], ["getAccel"]]
    for _ in range(12):
        k = rng.random()
        if k < .15: h.append(post())
        elif k < .3: h.append(["q0", [] if rng.random() < .3 else [rng.randint(-2, 2) for _ in range(n)]])
        elif k < .4: h.append(["sel", 5, rng.random() < .7])
        elif k < .5: h.append(["accel", rng.random() < .7])
        elif k < .6: h.append([rng.choice(["up", "down"]), 5])
        elif k < .65: h.append(["max", rng.choice([-1, 12801])])
        elif k < .72: h.append(rng.choice([["noproj"], ["proj", sorted(rng.sample(range(1, n + 1), rng.randint(1, n)))]]))
        else: h.append(["control"])
    h.append(["control"])
    return h
def components():
    return [check.Component("solver", "Sot", mk, explore={"quick": {"Profile": '"solve"'}}, tconsts={"Profile": '"trace"'}, workers=6,
                            trace={"quick": lambda r: [units(hist)(r) for _ in range(400)] + [units(posture)(r) for _ in range(80)],
                                   "thorough": lambda r: [units(lambda r: hist(r, 8, 60))(r) for _ in range(4000)] + [units(posture)(r) for _ in range(1000)]})]
