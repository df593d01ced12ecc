from props.laws_mk import *
def joint(r):
    h = [["joint"]]
    for _ in range(r.randint(1, 4)):
        n = r.randint(1, 12); lo = iv(r, n); q = iv(r, n); hi = [x + r.randint(0, 9) for x in lo]; h.append(["in", q, lo, hi])
        for _ in range(r.randint(1, 12)):
            k = r.randint(0, 9)
            if k < 3: q, lo, hi = iv(r, n) if k == 0 else q, [x - r.randint(0, 9) for x in hi] if k == 1 else lo, [x + r.randint(0, 9) for x in lo] if k == 2 else hi; h.append(["in", q, lo, hi])
            h.append(["width"] if r.random() < .15 else ["control", iv(r, r.randint(1, n))])
    return h
def neck(r):
    h = []
    for _ in range(3):
        n = 16; p, t = r.sample(range(1, n + 1), 2)
        if r.random() < .4: p, t, s = 15, 16, 1
        else: s = r.choice([1, -1])
        h.append(["neck", p, t, s])
        for _ in range(10):
            q = iv(r, n, 9000); q[p - 1] = r.choice([r.randint(-9, 9), 42 * r.randint(-200, 200)])
            lim = 6981 if abs(q[p - 1]) < 10 else 6981 - 25 * (abs(q[p - 1]) // 42)
            if r.random() < .5: q[t - 1] = r.choice([-1, 1]) * (lim + r.randint(-3, 3))
            h.append(["look", q])
    return h
def gripper(r):
    h = [["gripper"], ["offset", r.choice([1, 2])]]; n = r.randint(1, 5); st = {}; up = 0
    for _ in range(r.randint(10, 50)):
        k = r.random()
        if k < .06: h.append(["offset", r.choice([-3, -2, -1, 0, 1, 2])])
        elif k < .14 or "selec" not in st:
            s = [r.randint(0, 1) for _ in range(n)]; s[r.randrange(n)] = 1; st["selec"] = s; h.append(["set", "selec", s]); st.pop("desired", None)
        elif k < .3 or "position" not in st: st["position"] = 1; h.append(["set", "position", iv(r, n, 4)])
        elif k < .4 or "limit" not in st: st["limit"] = 1; h.append(["set", "limit", [r.randint(0, 3) for _ in range(n)]])
        elif k < .55 or "torque" not in st: st["torque"] = 1; h.append(["set", "torque", iv(r, n, 5) if r.random() < .9 else []])
        elif k < .65 or "desired" not in st: st["desired"] = 1; h.append(["set", "desired", iv(r, sum(st["selec"]), 6)])
        elif up < 4: h.append(["grip"]); up += 1
        else: h.append(["grip"]); h.append(["again"]); up = 0; h.append(["offset", 1]); h.append(["set", "torque", [0] * n]); h += [["grip"], ["grip"], ["grip"]]
    return h
def clamp(r):
    h = [["clamp"]]
    for _ in range(r.randint(2, 6)):
        if len(h) == 1 or r.random() < .3: x = [a + [r.randint(-300, 300)] for a in cube(r)]
        if len(h) == 1 or r.random() < .7: y = [a + [r.randint(-300, 300)] for a in cube(r)]
        h.append(["pose", x, y])
        h += [["clamped", r.choice(["alpha", "alphabar", "ref"])] for _ in range(r.randint(1, 4))]
    return h
def components(): return [comp("Limits", "joint", joint, 150), comp("Limits", "neck", neck, 80), comp("Limits", "gripper", units(gripper), 200), comp("Limits", "clamp", clamp, 100)]
