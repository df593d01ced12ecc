import re
from vf import check
from props.C05 import mk
def text(rng, depth=0):
    def num():
        a = str(rng.choice([0, 1, 2, 7, 12, 305])) + rng.choice(["", "", ".5"])
        return a if a == "0" else rng.choice(["", "-"]) + a
    def end(): return rng.choice(["--", num(), num()])
    def b(): return num() if rng.random() < .4 else "(" + end() + "," + end() + ")"
    def v():
        n = rng.randint(0, 4); return "[%d](%s)" % (n, ",".join(b() for _ in range(n)))
    return b, v
def mutate(rng, s):
    if rng.random() < .35 and len(s) > 1:
        k = rng.randint(0, len(s) - 1); m = rng.randint(0, 2)
        # (removing the sign or digits of a size would leave a huge or negative size: not exercised)
        if m == 0: s = s[:k] + s[k + 1:]
        elif m == 1: s = s[:k] + rng.choice("(),;x[]") + s[k + 1:]
        else: s = s[:k]
    return s
def ok(s):  # texts whose reading leaves the documented grammar in ways left open (blanks, exponents, empty)
    return s and "-0" not in s.replace("-0.5", "") and not s.startswith("[-") and not re.search(r"(^|[^0-9])\.|\.([^5]|$)|\.5[0-9.]", s)
def hist(rng):
    h = []; nv = 0
    b, v = text(rng)
    for _ in range(rng.randint(4, 30)):
        k = rng.randint(0, 11); x, y = rng.randint(-9, 9), rng.randint(-300, 300); w = rng.choice(["inf", "sup"])
        if k == 0: h.append(["mnew", x])
        elif k == 1: h.append(["mnew2", x, y])
        elif k == 2: h.append(["mnewb", x, w])
        elif k in (3, 4): h.append(["mset", w, y])
        elif k == 5: h.append(["munset", w])
        elif k == 6: h.append(["msingle", y])
        elif k == 7: h.append([rng.choice(["mcopy", "mecho"])])
        elif k == 8: h.append(rng.choice([["vpush"], ["vpush"], ["vpush"], ["vecho"], ["vclear"]]))
        elif k in (9, 10):
            s = mutate(rng, b())
            if ok(s): h.append(["mread", list(s)])
        else:
            s = mutate(rng, v())
            if ok(s): h.append(["vread", list(s)])
    return h + [["vecho"]]
def components():
    return [check.Component("bounds", "MultiBound", mk, explore={"quick": {"Vals": "{-3,4}", "MaxV": 2}, "thorough": {"Vals": "{-3,0,4}", "MaxV": 2}},
                            trace={"quick": lambda r: [hist(r) for _ in range(400)], "thorough": lambda r: [hist(r) for _ in range(10000)]}, tconsts={"Vals": "{1}", "MaxV": 2})]
