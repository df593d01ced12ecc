from vf import check, build
def mk(): return [build.harness("mailbox", ["src/tools/mailbox-vector.cpp", "src/factory/pool.cpp"], "mailbox.cpp")]
def gen(r, two):
    h = []; hold = wait = rd = new = False; v = 0; S = ["stamp", "unlock"] + ["copy"] * (2 * two)
    for _ in range(r.randint(10, 60)):
        k = r.random(); v += 1; d = r.randint(1, 1000)
        if k < .2 and not hold and not rd: h.append(["post", v, d]); new = True
        elif k < .4 and not hold and not rd: h.append(["begin", v, r.choice(S), d]); hold = True
        elif k < .3 and (hold or rd) and not wait: h.append(["queue", v, r.choice(S), d]); wait = True
        elif k < .5 and hold: h.append(["end", d]); hold, wait = wait, False; new = True
        elif k < .5 and rd: h.append(["endread"]); hold, wait = wait, False; rd = new = False
        elif k < .6: h.append(["updated"])
        elif two and k < .75 and new and not hold and not rd: h.append(["beginread"]); rd = True
        elif not rd: h.append(["read", r.choice(["object", "object", "timestamp", "sout"])]); new = False
    return h
def comp(p):
    q = {"Profile": f'"{p}"'}
    return check.Component(p, "Mailbox", mk, explore={"quick": q, "thorough": q}, tconsts=q, env={"MESSAGE": p},
                           trace={"quick": lambda r: [gen(r, p == "two") for _ in range(300)], "thorough": lambda r: [gen(r, p == "two") for _ in range(6000)]})
def components(): return [comp("vector"), comp("two")]
