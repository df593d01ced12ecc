import math
from vf import check, build
from props.laws_mk import units
SRC = ["src/matrix/operator.cpp", "src/matrix/vector-constant.cpp", "src/matrix/matrix-constant.cpp", "src/matrix/double-constant.cpp", "src/math/op-point-modifier.cpp", "src/factory/pool.cpp"]
def mk(): return [build.harness("operators", SRC, "operators.cpp")]
D = 125
PAIRS = [[3, 4], [4, 3], [-3, 4], [4, -3], [-4, -3], [5, 0], [0, 5], [-5, 0], [0, -5]]
def mm(a, b): return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]
def rpy(r): return [r.choice(PAIRS) for _ in range(3)]
def rot(r):
    (c1, s1), (c2, s2), (c3, s3) = rpy(r)
    return mm([[c3, -s3, 0], [s3, c3, 0], [0, 0, 5]], mm([[c2, 0, s2], [0, 5, 0], [-s2, 0, c2]], [[5, 0, 0], [0, c1, -s1], [0, s1, c1]]))
def iv(r, n, m=9): return [r.randint(-m, m) for _ in range(n)]
def im(r, n, c, m=9): return [iv(r, c, m) for _ in range(n)]
def homo(r): return [a + [r.randint(-9, 9)] for a in rot(r)]
def skew(t): return [[0, -t[2], t[1]], [t[2], 0, -t[0]], [-t[1], t[0], 0]]
def blocks(a, b, c, d): return [x + y for x, y in zip(a, b)] + [x + y for x, y in zip(c, d)]
Z = [[0] * 3 for _ in range(3)]
def unimodular(r):
    n = r.randint(1, 3); m = [[(i == j) * r.choice([1, -1]) for j in range(n)] for i in range(n)]
    for _ in range(6 if n > 1 else 0):
        i, j = r.sample(range(n), 2); k = r.randint(-2, 2)
        if r.random() < .5: m[i] = [a + k * b for a, b in zip(m[i], m[j])]
        else: m[i], m[j] = m[j], m[i]
    return m
def pyth(r): return r.choice([[3, -4], [], [0, 0], [2, 3, -6], [-7], [1, 4, 8, 0], [2, -4, 5, 6, 0, 0], [1, 1, 1, 1], [4, 4, -7]])
def quat(r):
    if r.random() < .4: q = [0] * 4; q[r.randrange(4)] = r.choice([2, -2]); return q
    return [r.choice([1, -1]) for _ in range(4)]
def ut(r):
    n = r.choice([4, 4, 3, 2])
    a = [0, 0, 0]
    if n == 4: a[r.randrange(3)] = r.choice([1, -1])
    elif n == 3: a = [r.choice([1, -1]) for _ in range(3)]
    else: i, j = r.sample(range(3), 2); a[i] = r.choice([1, -1]); a[j] = r.choice([1, -1])
    return a + [r.randint(-n, n), n]
U = dict(Selec_of_vector=1, Component_of_vector=1, Selec_of_matrix=1, Selec_column_of_matrix=1, MatrixTranspose=1, MatrixDiagonal=1)
RND = dict(Inverse_of_matrix=unimodular, Inverse_of_matrixHomo=homo, Norm_of_vector=pyth, Inverse_of_matrixrotation=rot, Inverse_of_unitquat=quat, SkewSymToVector=lambda r: iv(r, 3), MatrixToRPY=rot, MatrixToQuaternion=rot, MatrixToUTheta=rot,
  QuaternionToRPY=quat, QuaternionToMatrix=quat, PoseUThetaToMatrixHomo=lambda r: iv(r, 3) + ut(r), PoseQuaternionToMatrixHomo=lambda r: iv(r, 3) + quat(r), RPYToMatrix=rpy, RPYToQuaternion=rpy, UThetaToQuaternion=ut,
  PoseRollPitchYawToMatrixHomo=lambda r: [iv(r, 3), rpy(r)], PoseRollPitchYawToPoseUTheta=lambda r: [iv(r, 3), rpy(r)])
for c in "MatrixHomoToPoseUTheta MatrixHomoToPoseQuaternion MatrixHomoToPoseRollPitchYaw HomoToMatrix MatrixToHomo MatrixHomoToSE3Vector SE3VectorToMatrixHomo HomoToTwist HomoToRotation MatrixHomoToPose".split(): RND[c] = homo
def twist(r): k = rot(r); return blocks(k, mm(skew(iv(r, 3)), k), Z, k)
RND["Inverse_of_matrixtwist"] = twist
def seg(r, n): a = r.randint(0, n); return [a, r.randint(a, n)]
def unary(r):
    h = []
    for _ in range(r.randint(1, 3)):
        if r.random() < .6:
            c = r.choice(list(RND)); h.append(["new", c])
            for _ in range(r.randint(2, 8)): h.append(["in", 1, RND[c](r)] if r.random() < .5 else ["eval"])
            h.append(["eval"]); continue
        c = r.choice(list(U)); n, m = r.randint(1, 5), r.randint(1, 5); h.append(["new", c]); seen = False
        val = lambda: iv(r, n) if c in ("Selec_of_vector", "Component_of_vector", "MatrixDiagonal") else im(r, n, m)
        for _ in range(r.randint(4, 15)):
            k = r.random()
            if k < .35: h.append(["in", 1, val()])
            elif k < .65:
                if c == "Selec_of_vector": h.append(["cmd", r.choice(["selec", "addSelec"]), seg(r, n)])
                elif c == "Component_of_vector": h.append(["cmd", "setIndex", [r.randrange(n)]])
                elif c == "Selec_of_matrix": h.append(r.choice([["cmd", "selecRows", seg(r, n)], ["cmd", "selecCols", seg(r, m)]]))
                elif c == "Selec_column_of_matrix": h.append(r.choice([["cmd", "selecRows", seg(r, n)], ["cmd", "selecCols", [r.randrange(m)]]]))
                elif c == "MatrixDiagonal": h.append(["cmd", "resize", [r.randint(0, 6), r.randint(0, 6)]])
            else: h.append(["eval"])
    return h
BIN = "Multiply_double_vector Multiply_matrix_vector Multiply_matrixHomo_vector Multiply_matrixTwist_vector Substract_of_matrix Substract_of_vector Substract_of_double Stack_of_vector Compose_R_and_T ConvolutionTemporal CompareDouble CompareVector WeightAdd_of_matrix WeightAdd_of_vector WeightAdd_of_double".split()
def binary(r):
    h = []
    for _ in range(r.randint(1, 3)):
        c = r.choice(BIN + ["ConvolutionTemporal", "CompareVector"]); n, m = r.randint(1, 4), r.randint(1, 4); h.append(["new", c])
        A = dict(Multiply_double_vector=lambda: r.randint(-9, 9), Multiply_matrix_vector=lambda: im(r, n, m), Multiply_matrixHomo_vector=lambda: homo(r), Multiply_matrixTwist_vector=lambda: im(r, 6, 6), Compose_R_and_T=lambda: rot(r), Stack_of_vector=lambda: iv(r, n))
        B = dict(Multiply_double_vector=lambda: iv(r, n), Multiply_matrix_vector=lambda: iv(r, m), Multiply_matrixHomo_vector=lambda: iv(r, 4), Multiply_matrixTwist_vector=lambda: iv(r, 6), Compose_R_and_T=lambda: iv(r, 3), Stack_of_vector=lambda: iv(r, m), ConvolutionTemporal=lambda: im(r, n, r.randint(1, 4)))
        same = (lambda: im(r, n, m)) if c.endswith("_of_matrix") else (lambda: r.randint(-3, 3)) if "ouble" in c else (lambda: iv(r, n, 2))
        for _ in range(r.randint(4, 18)):
            k = r.random()
            if k < .25: h.append(["in", 1, A.get(c, same)()])
            elif k < .5: h.append(["in", 2, B.get(c, same)()])
            elif k < .65 and c == "Stack_of_vector": h.append(r.choice([["cmd", "selec1", seg(r, n)], ["cmd", "selec2", seg(r, m)]]))
            elif k < .65 and c.startswith("Weight"): h.append(r.choice([["cmd", "setGain1", [r.randint(-5, 5)]], ["cmd", "setGain2", [r.randint(-5, 5)]], ["cmd", "getGain1", []], ["cmd", "getGain2", []]]))
            elif k < .65 and c == "CompareVector": h.append(r.choice([["mode", r.random() < .5, r.random() < .5], ["getmode"]]))
            else: h.append(["eval"])
    return h
VAR = "Mix_of_vector Add_of_matrix Add_of_vector Add_of_double Multiply_of_matrix Multiply_of_vector Multiply_of_matrixrotation Multiply_of_matrixHomo Multiply_of_matrixtwist Multiply_of_quaternion Multiply_of_double And Or".split()
def variadic(r):
    c = r.choice(VAR + ["Mix_of_vector", "Add_of_double", "Add_of_vector", "Add_of_matrix"]); n, m = r.randint(1, 4), r.randint(1, 4); h = [["new", c]]
    names = ["default"] if c == "Mix_of_vector" else [] if c in ("And", "Or") else ["sin0", "sin1"]; size = [n] + [0] * 9; segs = []
    if c == "Mix_of_vector": n = r.randint(2, 6); size = [n] + [r.randint(1, 2) for _ in range(9)]
    top = 3 if c in ("Multiply_of_matrixrotation", "Multiply_of_matrixHomo") else 5
    val = dict(Multiply_of_matrixrotation=lambda i: rot(r), Multiply_of_matrixHomo=lambda i: homo(r), Multiply_of_matrixtwist=lambda i: im(r, 6, 6, 3), Multiply_of_quaternion=lambda i: iv(r, 4, 4), Multiply_of_matrix=lambda i: im(r, n, n, 4), Add_of_matrix=lambda i: im(r, n, m), Mix_of_vector=lambda i: iv(r, size[i]))
    one = (lambda i: r.random() < .5) if c in ("And", "Or") else (lambda i: r.randint(-6, 6)) if "double" in c else (lambda i: iv(r, n, 6))
    for _ in range(r.randint(8, 40)):
        k = r.random()
        if k < .4 and names: i = r.randrange(len(names)); h.append(["in", i + 1, val.get(c, one)(i)])
        elif k < .48:
            g = r.randint(1, top); h.append(["number", g]); names = names[:g]
            while len(names) < g:
                if f"sin{len(names)}" in names: break
                names.append(f"sin{len(names)}")
        elif k < .54 and len(names) < top:
            x = r.choice(["a", "b", "sin3", "sin1", None]); h.append(["add", x] if x else ["addn"]); x = x or f"sin{len(names)}"
            if x not in names: names.append(x)
        elif k < .57 and len(names) > 1: h.append(["remove"]); names.pop()
        elif k < .6: h.append(["names"])
        elif k < .63: h.append(["in", 9, 1])
        elif k < .7 and c.startswith("Add"): h.append(["coeffs", iv(r, len(names) + (r.random() < .1), 4)])
        elif k < .7 and c == "Mix_of_vector" and len(segs) < 4: s = r.randint(1, 4); g = [s, r.randint(0, n - size[s]) if size[s] <= n else 0, size[s]]; h.append(["cmd", "addSelec", g]); segs.append(g)
        elif names: h.append(["eval"])
    return h
def constant(r):
    h = []
    for _ in range(r.randint(1, 3)):
        c = r.choice(["VectorConstant", "MatrixConstant", "DoubleConstant"]); h.append(["constant", c]); seen = False
        for _ in range(r.randint(3, 12)):
            k = r.random()
            if k < .4 or not seen: h.append(["set", iv(r, r.randint(0, 4)) if c[0] == "V" else im(r, r.randint(1, 3), r.randint(1, 3)) if c[0] == "M" else r.randint(-9, 9)]); seen = True
            elif k < .55 and c[0] != "D": h.append(["zero", [r.randint(0, 4)] if c[0] == "V" else [r.randint(1, 4), r.randint(1, 4)]])
            else: h.append(["value"])
    return h
def point(r):
    h = [["point"]]; n = r.randint(1, 4)
    for _ in range(r.randint(6, 30)):
        k = r.random()
        h.append(["transformation", homo(r)] if k < .12 else ["in", 1, im(r, 6, n, 5)] if k < .3 else ["in", 2, homo(r)] if k < .45 else ["effector", r.random() < .5] if k < .55 else ["gettr"] if k < .6 else ["jacobian"] if k < .85 else ["position"])
    return h
def comp(name, gen, n):
    gen = units(gen)
    q = {"Profile": f'"{name}"'}
    return check.Component(name, "Operators", mk, explore={"quick": q, "thorough": q}, tconsts=q, trace={"quick": lambda r: [gen(r) for _ in range(n)], "thorough": lambda r: [gen(r) for _ in range(20 * n)]})
def components(): return [comp("unary", unary, 500), comp("binary", binary, 400), comp("variadic", variadic, 400), comp("constant", constant, 60), comp("point", point, 150)]
