from vf import check, build
def mk(): return [build.harness("reader", ["src/traces/reader.cpp", "src/sot/flags.cpp", "src/factory/pool.cpp"], "reader.cpp")]
def line(r, n):
    k = r.choice(["row"] * 5 + ["blank", "word", "tail", "long", "crlf"])
    return [k, [] if k in ("blank", "word") else [r.randint(-400, 400) for _ in range(n)]]
def hist(r):
    h = []; n = r.randint(1, 7); m = 0; sel = 0
    for _ in range(r.randint(8, 60)):
        k = r.random()
        if k < .12:
            f = [line(r, n) for _ in range(r.choice([0, 1, 1, 3, 6]))]
            if r.random() < .3: f.append(["last", [r.randint(-400, 400) for _ in range(n)]])
            h.append(["load", f])
        elif k < .14: h.append(["missing"])
        elif k < .17: h.append(["clear"])
        elif k < .21: h.append(["rewind"])
        elif k < .26: h.append(["selec", [r.random() < .5 for _ in range(r.randint(0, 6))], r.random() < .7])
        elif k < .6: h.append(["next"])
        else: h.append(["vector"])
    return h
def histm(r):
    """with matrices: every column is selected and the shape fits"""
    n = r.choice([1, 2, 4, 6]); h = [["load", [["row", [r.randint(-400, 400) for _ in range(n)]] for _ in range(r.randint(1, 5))]]]
    for _ in range(r.randint(8, 50)):
        k = r.random()
        if k < .1: h.append(["resize"] + r.choice([[a, b] for a in range(5) for b in range(5) if a * b <= n and (a and b)]))
        elif k < .15: h.append(["load", [["row", [r.randint(-400, 400) for _ in range(n)]]]])
        elif k < .2: h.append(["rewind"])
        elif k < .55: h.append(["next"])
        else: h.append([r.choice(["vector", "matrix", "matrix"])])
    return h
def components():
    return [check.Component("reader", "Reader", mk, explore={"quick": {}, "thorough": {}}, tconsts={},
                            trace={"quick": lambda r: [hist(r) for _ in range(300)] + [histm(r) for _ in range(300)], "thorough": lambda r: [hist(r) for _ in range(8000)] + [histm(r) for _ in range(8000)]})]
