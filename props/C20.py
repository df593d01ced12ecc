from vf import check
from props.core_mk import mk
def hist(rng):
    h = []; far = rng.random() < .15     # very long lines are one element; then nothing is cut off
    def chars(): return [rng.choice(["a", "b", " ", "\t", "\n", "\n", "7"]) if rng.random() < .97 else "x" * rng.choice([1100, 4097, 9000, 70000] if far else [200, 255, 256, 257, 600]) for _ in range(rng.randint(0, 8))]
    # number of lines waiting, to call next only when a line is ready
    files = {1: None, 2: None}; cur = 1; pos = 0; first = True; wait = 0
    for _ in range(rng.randint(6, 50)):
        k = rng.random(); f = cur if rng.random() < .8 else 3 - cur
        if k < .4: c = chars(); h.append(["append", f, c]); files[f] = (files[f] or "") + "".join(c)
        elif k < .43 and not far: c = chars(); h.append(["write", f, c]); files[f] = "".join(c)
        elif k < .45 and not far: h.append(["delete", f]); files[f] = None
        elif k < .48: cur = rng.randint(1, 2); pos = 0; h.append(["open", cur])
        elif k < .75:
            h.append(["loop"]); t = (files[cur] or "")[pos:]; n = t.rfind("\n") + 1
            if not first: wait += t.count("\n")
            first = False; pos += n
        elif k < .85: h.append(["ready"])
        elif wait > 0: h.append(["next"]); wait -= 1
    return h + [["loop"], ["ready"]]
def explode(h):  # one character, or one run of the same, per element
    return [[o[0], o[1], [c for x in o[2] for c in ([x] if len(x) > 1000 else list(x))]] if o[0] in ("append", "write") else o for o in h]
def components():
    c = {"Chars": '{"a"}', "MaxLen": 2}
    return [check.Component("follow", "Tail", mk("t"), explore={"quick": c, "thorough": {"Chars": '{"a"}', "MaxLen": 3}}, tconsts=c,
                            trace={"quick": lambda r: [explode(hist(r)) for _ in range(400)], "thorough": lambda r: [explode(hist(r)) for _ in range(8000)]})]
