from vf import check
from props.py_mk import mk
def hist(rng):
    f = rng.choice([0, 1, 2, 5, 7]); h = [["new", f, rng.random() < .6, rng.random() < .7, rng.random() < .5]]; f = f or 100; t = 0; n = 0
    for _ in range(rng.randint(5, 40)):
        k = rng.random()
        if k < .55 or t == 0 and n == 0:
            h.append(["at", t, [rng.randint(-179, 179) for _ in range(36)], [rng.randint(-99, 99) for _ in range(rng.randint(1, 40))], [rng.randint(-9, 9) for _ in range(3)], [rng.randint(0, 3), [rng.randint(-9, 9) for _ in range(3)]]])
            h.append(["record"]); n += t % f == 0; t += 1 if f < 100 else rng.choice([1, 50, 100 - t % 100])
        elif k < .85: h.append(["restore", rng.randint(0, max(1, int(t * 1.2)))])
        else: h.append(["dump"])
    return h
def components():
    c = {"Freqs": "{0, 1, 2}", "MaxT": 3}
    return [check.Component("history", "History", mk("history"), explore={"quick": c, "thorough": {"Freqs": "{0, 1, 2, 3}", "MaxT": 6}}, tconsts=c,
                            trace={"quick": lambda r: [hist(r) for _ in range(300)], "thorough": lambda r: [hist(r) for _ in range(5000)]})]
