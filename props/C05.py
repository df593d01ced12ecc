from vf import check, build
SRC = ["src/sot/flags.cpp", "src/task/multi-bound.cpp", "src/factory/pool.cpp"]
def mk(): return [build.harness("basics", SRC, "basics.cpp")]
def flags(rng):
    h = []; wide = rng.random() < .15; far = 75 if wide else 12
    for _ in range(rng.randint(5, 40)):
        r, s, t = (rng.randint(0, 2) for _ in range(3)); b = rng.random() < .5; k = rng.randint(0, 13)
        bits = [rng.choice("01") for _ in range(rng.randint(0, 10) if not wide else rng.choice([15, 31, 33, 64, 70]))]; bits = ["0"] * len(bits) if bits and rng.random() < .1 else bits; bits[-1:] = ["1"] if bits and rng.random() < .1 else bits[-1:]
        if k == 0: h.append(["fbool", r, b])
        elif k == 1: h.append(["fstr", r, bits + ([rng.choice("2ax,-")] if rng.random() < .15 else [])])
        elif k == 2: h.append(["fvec", r, [x == "1" for x in bits]])
        elif k == 3: h.append(["fadd", r, b])
        elif k == 4: h.append(["fset", r, rng.randint(0, far)])
        elif k == 5: h.append(["funset", r, rng.randint(0, far)])
        elif k == 6: h.append(["fnot", r, s])
        elif k == 7: h.append(["fand", r, s, t])
        elif k == 8: h.append(["for", r, s, t])
        elif k == 9: h.append(["fandeq", r, s])
        elif k == 10: h.append(["foreq", r, s])
        elif k == 11: h.append(["fget", r, rng.choice([0, 1, 5, 9, 10, 31, 32, 63, 64, 65, 1000])])
        elif k == 12:
            x = list(bits)
            for _ in range(rng.randint(0, 2)): x.insert(rng.randint(0, len(x)), rng.choice([" ", " ", "x"]))
            h.append(["fread", r, x])
        else: h.append(rng.choice([["fcopy", r, s], ["fecho", r]]))
    return h
def components():
    return [check.Component("flags", "Flags", mk, explore={"quick": {"MaxLen": 3, "Regs": 2, "Profile": '"x"'}, "thorough": {"MaxLen": 4, "Regs": 2, "Profile": '"x"'}},
                            trace={"quick": lambda r: [flags(r) for _ in range(400)], "thorough": lambda r: [flags(r) for _ in range(8000)]}, tconsts={"MaxLen": 4, "Regs": 2, "Profile": '"x"'})]
