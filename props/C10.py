from vf import check, build
def mk(): return [build.harness("logic", ["src/tools/event.cpp", "src/tools/switch.cpp", "src/tools/latch.cpp", "src/tools/binary-int-to-uint.cpp", "src/tools/time-stamp.cpp", "src/tools/timer.cpp", "src/sot/flags.cpp", "src/factory/pool.cpp"], "logic.cpp")]
NONE = -99
def event(r):
    h = []; v = 0; far = r.random() < .03
    if far: h += [["trig", 1], ["repeat", r.choice([60, 130, 260])], ["cond", 1]] + [["check"]] * r.choice([140, 300, 550])
    for _ in range(r.randint(15, 70)):
        k = r.random()
        if k < .05: h.append(["repeat", r.choice([0, 0, 1, 2, 3, 5, -1])])
        elif k < .12: h.append(["trig", r.randint(1, 3)])
        elif k < .13: h.append(["notrig"])
        elif k < .17: h.append(["bad", r.randint(1, 3), r.random() < .3])
        elif k < .2: h.append(["list"])
        elif k < .22: h.append(["cond", NONE])
        elif k < .4: v = 1 - v if r.random() < .8 else v; h.append(["cond", v])
        else: h.append(["check"])
    return h
def switch(r):
    h = [["kind", r.choice(["vector", "bool", "pose"])]]; n = 0
    for _ in range(r.randint(15, 70)):
        k = r.random()
        if k < .1: n = r.randint(0, 6) if r.random() < .95 else r.choice([17, 40]); h.append(["number", n])
        elif k < .35: h.append(["in", r.randint(0, max(0, n - 1)) if r.random() < .95 else n, r.randint(1, 2)])
        elif k < .5: h.append(["sel", r.choice([NONE, -1, 0, 1, 2, 3, 4, 5, 6] + ([n - 1, n, 16, 256] if n > 6 else []))])
        elif k < .6: h.append(["bsel", r.choice([NONE, 0, 1])])
        elif k < .65: h.append(["count"])
        else: h.append(["out"])
    return h
def clock(r):
    h = [["kind", r.choice(["vector", "double"])]]
    for _ in range(r.randint(10, 50)):
        k = r.random()
        if k < .1: h.append(["clock", r.randint(0, 900), r.randint(0, 999999)])
        elif k < .3: h.append(["stamp", r.choice(["time", "timeDouble", "display"])])
        elif k < .5: h.append(["work", r.randint(-9, 9), r.choice([0, 1, 999999, 1000000, r.randint(0, 3000000)]), r.randint(0, 100000)])
        elif k < .75: h.append(r.choice([["timer", "sout"], ["timer", "clockSout"], ["again"]]))
        else: h.append(["dt"])
    return h
def comp(name, gen, n=300):
    q = {"Profile": f'"{name}"'}
    return check.Component(name, "Logic", mk, explore={"quick": q, "thorough": q}, tconsts=q,
                           trace=gen and {"quick": lambda r: [gen(r) for _ in range(n)], "thorough": lambda r: [gen(r) for _ in range(12000)]})
def components(): return [comp("event", event), comp("latch", None), comp("switch", switch), comp("clock", clock)]
