from vf import check, build
def mk(): return [build.harness("stopwatch", ["src/utils/stop-watch.cpp"], "stopwatch.cpp", asan=False, shim=False)]
def hist(rng):
    h = []; names = ["a", "b", "c", "L"]; known = set(); mode = "none"; on = True
    if rng.random() < .9: mode = rng.choice(["real", "cpu"]); h.append(["mode", mode])
    for _ in range(rng.randint(8, 50)):
        k = rng.random(); n = rng.choice(names)
        if k < .2: h.append(["adv", rng.choice([0, 1, 7, 250, 1000, 123456, 3000000]), rng.choice([0, 3, 500, 70000, 1000000])])
        elif k < .38:
            if mode != "none" or n in known or not on:
                h.append(["start", n]); known |= {n} if on else set()
        elif k < .54: h.append(["stop", n])
        elif k < .62: h.append(["pause", n])
        elif k < .66: h.append(["reset", n])
        elif k < .67: h.append(["resetall"])
        elif k < .69: on = not on; h.append(["on" if on else "off"])
        elif k < .70:
            # a change of clock: the running measures are meaningless, so they are reset
            mode = rng.choice(["real", "cpu"]); h += [["on"], ["resetall"], ["mode", mode]]; on = True
        elif k < .73: h.append(["exists", n])
        elif k < .76: h.append(["take"])
        elif k < .84: h.append(["report", n])
        elif k < .88: h.append(["reportall"])
        elif k < .89: h.append(["profiler"])
        else: h.append(["get", rng.choice(["total", "min", "max", "last", "sofar", "avg"]), n])
    return h + [["reportall"]]
def components():
    c = {"Names": '{"a"}', "Steps": "{3, 5}", "MaxT": 8}
    return [check.Component("stopwatch", "Stopwatch", mk, explore={"quick": c, "thorough": {"Names": '{"a"}', "Steps": "{0, 3, 5}", "MaxT": 13}}, tconsts=c,
                            trace={"quick": lambda r: [hist(r) for _ in range(500)], "thorough": lambda r: [hist(r) for _ in range(15000)]})]
