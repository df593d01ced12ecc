from vf import check, build
def mk():
    for n, d in (("one", []), ("two", []), ("dev", ["-DDEVICE"]), ("nocreate", ["-DNOCREATE"])): build.shared("sot-" + n, "sotlib.cpp", [f'-DID="{n}"'] + d)
    return [build.harness("loader", ["src/tools/sot-loader.cpp", "src/factory/pool.cpp"], "loader.cpp", libs=["-rdynamic"])]
GOOD = ("one", "two", "dev")
def hist(r):
    h = []; s = None; kept = set(); free = set()
    for _ in range(r.randint(10, 60)):
        if s is None:
            if free | kept and r.random() < .3: k = r.choice(sorted(free | kept)); h.append(["drop", k]); free.discard(k); kept.discard(k)
            else: h.append(["new"]); s = {"file": "", "lib": "", "run": False, "dev": "", "ents": set()}
            continue
        x = r.random()
        if x < .1: s["file"] = r.choice(["one", "two", "dev", "dev", "nocreate", "missing", ""]); h.append(["lib", s["file"]])
        elif x < .16:
            a = r.choice([[], ["--help"], ["--input-file=@one"], ["--input-file", "@two"], ["--sot-dynamic-library=@two"], ["--input-file=@one", "--sot-dynamic-library", "@two"], ["--sot-dynamic-library=@one", "--input-file=@dev"], ["--bogus"], ["--input-file"], ["--input-file=@one", "--help"], ["--input-file=@one", "--input-file=@two"]])
            h.append(["opts", a])
            if "--help" in a or "--bogus" in a or not a or a == ["--input-file"] or len([y for y in a if y.startswith("--input-file")]) > 1: continue
            l = [(y if "=" in y else y + "=" + a[i + 1]) for i, y in enumerate(a) if y[0] != "@"]
            l.sort(key=lambda y: y[:5] != "--sot"); s["file"] = l[0].split("@")[1]
        elif x < .3:
            if s["lib"] == "" and not (s["file"] == "dev" and "robot" in kept):
                d = ["/a", "/b", "/opt/ros/lib", "/c d"]
                h.append(["init", r.sample(d, r.randint(1, 3)), r.sample(d + ["", "/x"], r.randint(1, 4)), r.random() < .5])
                if s["file"] in GOOD: s["lib"] = s["file"]
        elif x < .4: h.append([r.choice(["start", "start", "stop", "status"])]); s["run"] = {"start": True, "stop": False}.get(h[-1][0], s["run"])
        elif x < .6:
            if s["lib"] or not s["run"]: h.append(["iter", r.randint(-9, 9), r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6])])
        elif x < .68:
            e = r.choice(["e1", "e2", "e3"])
            if e not in s["ents"]: s["ents"].add(e); h.append(["entity", e])
        elif x < .73:
            k = r.choice(["robot", "k"])
            if k not in kept | free and not (k == "robot" and s["lib"] == "dev"): kept.add(k); h.append(["keep", k])
            elif k in kept | free: kept.discard(k); free.discard(k); h.append(["drop", k])
        elif x < .8: s["dev"] = r.choice(["robot", "robot", "k"]); h.append(["device", s["dev"]])
        elif x < .92:
            if kept <= {s["dev"]} and (s["lib"] != "dev" or s["dev"] == "robot"):
                free |= kept; kept = set()
                if r.random() < .3: s = None; h.append(["free"])
                else: h.append(["clean"]); s.update(lib="", dev="", ents=set())
        elif x < .95: h.append(["loaded"])
        elif x < .98: h.append(["cmd", r.choice(["1+1", "print(2)", "ERR"])])
        else: h.append(["file", r.choice(["a.py", "b.py"]), r.random() < .5])
    return h
def components():
    q = [{"Profile": f'"{x}"'} for x in ("life", "device", "opts", "path")]
    return [check.Component("loader", "Loader", mk, explore={"quick": q, "thorough": q}, tconsts={"Profile": '"trace"'},
                            trace={"quick": lambda r: [hist(r) for _ in range(300)], "thorough": lambda r: [hist(r) for _ in range(6000)]})]
