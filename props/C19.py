from vf import check
from props.core_mk import mk
CL = {"Signal": "GENERIC READWRITE_LOCK COPY_NOT_INITIALIZED NOT_INITIALIZED PLUG_IMPOSSIBLE SET_IMPOSSIBLE BAD_CAST", "Task": "GENERIC EMPTY_LIST NON_ADEQUATE_FEATURES MATRIX_SIZE BOUND_TYPE PARSER_MULTI_BOUND",
      "Feature": "GENERIC BAD_INIT UNCOMPATIBLE_SIZE", "Factory": "GENERIC UNREFERED_OBJECT UNREFERED_SIGNAL UNREFERED_FUNCTION DYNAMIC_LOADING SIGNAL_CONFLICT FUNCTION_CONFLICT OBJECT_CONFLICT SYNTAX_ERROR READ_FILE",
      "Dynamic": "GENERIC CANT_DESTROY_SIGNAL JOINT_RANK DYNAMIC_JRL JOINT_SIZE INTEGRATION", "Tools": "GENERIC CORBA KALMAN_SIZE PARAMETER_SERVER"}
def errors(rng):
    h = []
    for cl, es in CL.items():
        for e in es.split():
            m = rng.choice(["", "message", "two words", "line\nbreak", "%s %d %n", "x" * 300])
            h.append(["exc", cl, e, m])
            for k in rng.sample(range(1, 6), 2): h.append(["excf", cl, e, rng.choice(["", "m: ", "50%"]), k, rng.choice(["", "abc", "%d", "y" * 40]), rng.randint(-1000, 1000)])
            h.append(["exclong", cl, e, rng.choice([0, 10, 300]), rng.choice([0, 1, 254, 255, 256, 257, 400, 1000])])
    h.append(["exc", "Abstract", "GENERIC", rng.choice(["", "abs"])])
    for _ in range(10): h.append(["named", rng.choice(["", "n", "left arm"]), [rng.randint(-9, 9) for _ in range(rng.randint(0, 5))]])
    rng.shuffle(h)
    return h
def flow(rng):
    h = []; lv = lambda: rng.choice([-2, -1, 0, 1, 5, 8, 9, 14, 15, 16, 45])
    w = lambda: rng.choice(["", "a", "some text", "%d"])
    for _ in range(rng.randint(6, 40)):
        k = rng.randint(0, 22)
        h.append([["level", lv()], ["tlevel", lv()], ["pre", lv()], ["pre0"], ["tmp", w()], ["tmp", w()], ["trace", lv(), w(), 3], ["trace0", w(), -4], ["flush", lv()], ["flush0"], ["ttrace", lv(), w(), 5], ["ttrace0", w(), 6],
                  ["long", rng.choice([0, 1, 510, 511, 512, 513, 600, 5000])], ["open", rng.choice([1, 2, 1, 2, 3])], ["close"] if rng.random() < .6 else ["fail"], ["good"], ["read", rng.randint(1, 2)], ["read", rng.randint(1, 2)], ["raw", w()],
                  [rng.choice(["debug", "mute", "tdebug", "debugf", "tdebugf"]), lv(), w()], [rng.choice(["error", "errorf"]), w()], [rng.choice(["in", "tin"]), lv()], ["enable", lv()]][k])
    return h + [["read", 1], ["read", 2]]
def components():
    c = {"Levels": "{-1, 0, 1}", "Files": "{1, 2, 3}", "MaxLen": 1}
    return [check.Component("reports", "Debug", mk(), explore={"quick": {"Levels": "{0, 1}", "Files": "{1, 3}", "MaxLen": 1}, "thorough": {"Levels": "{-2, 0, 1}", "Files": "{1, 2, 3}", "MaxLen": 1}}, tconsts=c,
                            trace={"quick": lambda r: [errors(r) for _ in range(15)] + [flow(r) for _ in range(300)], "thorough": lambda r: [errors(r) for _ in range(300)] + [flow(r) for _ in range(8000)]})]
