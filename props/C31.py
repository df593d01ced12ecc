from vf import check
from props.py_mk import mk
def hist(r):
    h = []; rob = []; cls = {}; ping = False; logged = False
    for _ in range(r.randint(5, 40)):
        if not rob or len(rob) < 3 and r.random() < .1:
            n = r.randint(1, 4); c = r.randint(1, 3); rob.append(dict(cl=c, n=n, view=0, time=0)); h.append(["new", r.choice(["robot", "robot_device", "foo", "obj%d" % len(rob)]), c, r.choice(["tuple", "array"]), [r.randint(-50, 50) for _ in range(n)]])
        i = r.randint(1, len(rob)); m = rob[i - 1]; at = m["cl"] in cls; shared = sum(x["cl"] == m["cl"] for x in rob) > 1
        k = r.random()
        if m["view"] == 0 and (at or k < .3) or k < .05:
            md = "ok" if at and m["view"] == 0 else r.choice(["ok", "ok", "ok", "nomodule", "refused", "silent"])
            if md == "refused" and m["view"] != 1 and not at: md = "nomodule"
            small, extra = cls.get(m["cl"], None) if shared and at else (r.random() < .4, r.randint(0, 3))
            if md == "refused": small, extra = cls.get(m["cl"], (False, 0))
            dor = r.random() < .7
            if m["view"] == 0 and md != "ok" and any(x is not m and x["cl"] == m["cl"] for x in rob): continue
            h.append(["connect", i, md, small, extra, dor, r.random() < .5])
            if md in ("ok", "silent"): cls[m["cl"]] = (small, extra); m["disp"] = True
            m["view"] = 1 if md == "ok" or md == "silent" and not dor else 2
        elif at and m["view"] == 0: continue
        elif k < .25: h.append(["set", i, [r.randint(-50, 50) for _ in range(m["n"])]])
        elif k < .45: h.append(["increment", i, r.randint(-9, 9)])
        elif k < .5: h.append(["state", i])
        elif m["view"] == 0: continue
        elif k < .6 and at and m.get("disp"): h.append(["refresh", i])
        elif k < .65 and at and m.get("disp"): h.append(["display", i, r.randint(1, 9)])
        elif k < .75: h.append(["com", i, r.randint(0, 3), r.choice(["com", "zmp"]), [r.randint(-50, 50) for _ in range(3)]])
        elif k < .8: h.append(["ping" if ping else "pinger", i]); ping = True
        elif k < .9 and not logged: h.append(["log", i]); logged = i
        elif logged == i: h.append(["file", i, r.choice(["hrp", "foo", "com", "pong", "zmp", "obj1"])])
    return h
def components():
    c = {"Big": "2"}
    return [check.Component("viewer", "Viewer", mk("viewer"), explore={"quick": c, "thorough": {"Big": "3"}}, tconsts={"Big": "2"},
                            trace={"quick": lambda r: [hist(r) for _ in range(400)], "thorough": lambda r: [hist(r) for _ in range(8000)]})]
