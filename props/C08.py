from vf import check, build
from props.C01 import SRC as SOLVER
def mk():
    return [build.harness("sched", ["src/tools/periodic-call.cpp", "src/tools/periodic-call-entity.cpp", "src/tools/sequencer.cpp", "src/factory/pool.cpp"] + [s for s in SOLVER if s != "src/factory/pool.cpp"], "sched.cpp")]
def calls(r):
    h = []; t = r.choice([0, 0, 0, 250, 32760, 65530, 131070, 999999, 2 ** 30]); far = r.random() < .3
    for _ in range(r.randint(15, 60)):
        k = r.random()
        if k < .12: h.append(["add", r.choice([1, 2, 5]), r.randint(1, 3)])
        elif k < .18: h.append(["path", r.randint(1, 2)])
        elif k < .32: h.append(["down", r.choice([1, 2, 5]), r.randint(1, 3), r.choice([0, 1, 2, 3, 4, 5, 7, 10] + ([16, 256, 257, 300, 1000, 65536, 70000] if far else []))])
        elif k < .38: h.append(["downpath", r.randint(1, 2), r.choice([0, 1, 2, 3, 6] + ([200, 255, 256, 32768, 65537] if far else []))])
        elif k < .40: h.append(["wrong", r.choice("ab")])
        elif k < .46: h.append(["rm", r.randint(1, 5)])
        elif k < .47: h.append(["clear"])
        elif k < .53: h.append(["bad", r.randint(1, 3), r.random() < .3])
        elif k < .57: h.append(["names"])
        else: t = t + 1 if r.random() < .8 else r.randint(0, 100) if not far else r.choice([256, 257, 300, 1000, 65536, 70000, 512, 900, 200, 32768, 65537, 131072]) * r.randint(0, 3); h.append([r.choice(["run", "run", "run", "trigger", "trigger", "once"]), t])
    return h
def seq(r):
    h = []; t = r.randint(0, 20); b = r.choice([0, 0, 0, 120, 250, 300, 32760, 65530, 70000])
    if b: h += [["play", True], ["step", t]]; t += b
    for _ in range(r.randint(15, 60)):
        k = r.random()
        if k < .3: h.append(["ev", b + r.randint(0, 12), r.choice(["add", "rm"]), r.randint(1, 4), r.random() < .1])
        elif k < .4: h.append(["rmev", b + r.randint(0, 12), r.choice(["add", "rm"]), r.randint(1, 4)])
        elif k < .41: h.append(["forget"])
        elif k < .47: h.append(["play", r.random() < .85])
        elif k < .5: h.append(["sot", r.randint(0, 1)])
        elif k < .55: h.append(["show"])
        elif k < .65: h.append(["go", b + r.randint(0, 40)])
        else: t += 1; h.append(["step", t])
    return h
def comp(name, prof, gen):
    q = {"Profile": f'"{prof}"'}; t = {"Profile": f'"{prof}3"'} if prof == "seq" else q
    return check.Component(name, "Sched", mk, explore={"quick": q, "thorough": t}, tconsts=q,
                           trace={"quick": lambda r: [gen(r) for _ in range(400)], "thorough": lambda r: [gen(r) for _ in range(15000)]})
def components(): return [comp("periodic-call", "calls", calls), comp("sequencer", "seq", seq)]
