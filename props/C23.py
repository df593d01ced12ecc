from vf import check
from props.py_mk import mk
def hist(rng):
    h = []; deco = False
    for _ in range(rng.randint(8, 40)):
        k = rng.random(); t = rng.choice([0, 1, 2, 3, 7, 12, -1, -1]); i = rng.randint(1, 5); d = rng.choice(["", "D", "some doc"])
        if i == 5 and t == 7: t = 6
        if k < .3: h.append(["reg", t, rng.choice(["fun", "object"]), i])
        elif k < .4: h.append(["reg", t, rng.choice(["pair", "tuple"]), rng.choice([1, 2, 3]), d])
        elif k < .43: h.append(["reg", t, "two", rng.randint(1, 3), rng.randint(1, 3)])
        elif k < .45: h.append(["reg", t, "many", rng.randint(1, 3), d, rng.randint(1, 3)])
        elif k < .5: h.append(["deco", rng.choice([1, 2, 9]), rng.choice([1, 2])]); deco = True
        elif k < .52 and deco: h.append(["calldeco", [rng.randint(0, 9)]])
        elif k < .6: h.append(["stop", rng.randint(1, 3), rng.choice(["one", d])])
        elif k < .65: h.append(["ping", rng.randint(1, 9)])
        elif k < .85: h.append(["run", rng.choice([0, 1, 2, 3, 6, 7, 8, 9, 12]), [rng.randint(0, 9) for _ in range(rng.choice([0, 0, 2]))]])
        elif k < .92: h.append(["ff", rng.randint(0, 12)])
        elif k < .98: h.append(["repr"])
        else: h.append(["sigset", [rng.randint(-9, 9) for _ in range(3)]])
    return h
def components():
    c = {"Ids": "{1, 2, 4, 5}", "Times": '{-1, 2}', "MaxEv": 2}
    return [check.Component("calendar", "Calendar", mk("calendar"), explore={"quick": c, "thorough": {"Ids": "{1, 2, 4, 5}", "Times": '{-1, 0, 2}', "MaxEv": 3}}, tconsts=c,
                            trace={"quick": lambda r: [hist(r) for _ in range(400)], "thorough": lambda r: [hist(r) for _ in range(10000)]})]
