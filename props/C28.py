from vf import check
from props.py_mk import mk
def hist(r):
    h = []; pc = "none"; w = r.choice([.5, .8])
    st = dict(quit=False, play=False, once=False, fails=False)
    for _ in range(r.randint(5, 60)):
        if pc in ("begin", "body", "sleep") and r.random() < w:
            h.append(["step"])
            if pc == "body":
                if st["fails"]: pc = "ended"; st["fails"] = False
                else:
                    pc = "sleep"
                    if st["once"]: st["play"] = False
            else: pc = "ended" if st["quit"] else "body" if st["play"] else "sleep"
            continue
        k = r.choice(["play", "pause", "once", "go", "stop", "next", "inc"] * 3 + ["quit", "start", "restart", "fail", "restart"])
        if k == "start" and pc != "none" or k == "restart" and pc not in ("none", "ended") or k == "fail" and pc != "body": continue
        h.append([k] + ([r.randint(0, 4)] if k == "inc" else []))
        if k in ("play", "go"):
            if pc == "ended": st["play"] = True; st["quit"] = False; continue
            if pc == "none": pc = "begin"; st["quit"] = False
            st["once"] = False; st["play"] = True
        elif k in ("pause", "stop"): st["play"] = False
        elif k == "once": st["once"] = st["play"] = True
        elif k == "quit": st["quit"] = True
        elif k == "start": pc = "begin"; st["play"] = True; st["quit"] = False
        elif k == "restart" and pc == "ended": pc = "begin"; st.update(play=True, quit=False, once=False)
        elif k == "fail": st["fails"] = True
    return h
def components():
    c = {"MaxIter": "4"}
    return [check.Component("loop", "ThreadLoop", mk("loop"), explore={"quick": c, "thorough": {"MaxIter": "6"}}, tconsts={"MaxIter": "3"},
                            trace={"quick": lambda r: [hist(r) for _ in range(400)], "thorough": lambda r: [hist(r) for _ in range(8000)]})]
