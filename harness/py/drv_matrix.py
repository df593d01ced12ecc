import random, math
import numpy as np
import dynamic_graph.sot.core.matrix_util as mu
def reset(): pass
def R(x, unit=1, tol=1e-6):
    v = float(x) * unit; r = round(v)
    return r if abs(v - r) <= tol else "off:%r" % v
def flat(M, unit=1, tol=1e-6): return [R(x, unit, tol) for row in M for x in row]
def ang(a): return math.atan2(a[1], a[0])
def cs(x): return [R(math.cos(x), 5), R(math.sin(x), 5)]
def tup(M16): return tuple(tuple(M16[4 * i + j] / 125. for j in range(4)) for i in range(4))
def form(f, M):
    return M if f == "tuple" else np.array(M) if f == "array" else np.matrix(M) if f == "matrix" else [list(r) for r in M]
def istup(M): return isinstance(M, tuple) and all(isinstance(r, tuple) for r in M)
def op(o):
    c = o[0]
    if c == "rotate": return flat(mu.rotate(o[1], ang(o[2])), 5)
    if c == "rpy2tr":
        M = mu.rpy2tr(*[ang(a) for a in o[1]]); return [istup(M), flat(M, 125)]
    if c == "toMatrix":
        v = list(o[2]) + [ang(a) for a in o[3]]
        M = mu.RPYToMatrix(tuple(v) if o[1] == "tuple" else np.array(v, dtype=float) if o[1] == "array" else v)
        return [list(M.shape), flat(M, 125)]
    if c == "toRPY":
        v = mu.matrixToRPY(form(o[1], tup(o[2]))); return [R(x, 125) for x in v[:3]] + [cs(x) for x in v[3:]]
    if c == "near":
        p = o[1] * math.pi / 2 - o[1] * o[2] * 1e-4
        M = mu.RPYToMatrix(mu.matrixToRPY(mu.RPYToMatrix([1, 2, 3, ang(o[3]), p, ang(o[4])])))
        return flat(M, 25, .2)
    if c == "dist": return [R(x, 125) for x in mu.distVector(form(o[1], tup(o[2])), form(o[1], tup(o[3])))]
    if c == "quat": return flat(mu.quaternionToMatrix([x / o[2] for x in o[1]]), o[2] * o[2])
    if c == "ortho":
        random.seed(o[3]); v = o[1]; M = np.array(mu.generateOrthonormalM(tuple(v)))
        return [flat(M.T @ M), R(np.linalg.det(M)), [R(x, o[2]) for x in M[:, 0]]]
    if c == "mtup":
        a = np.array(o[2], dtype=float if o[3] else int); M = mu.matrixToTuple(np.matrix(a) if o[1] == "matrix" else a); return [istup(M), [[R(x) for x in r] for r in M]]
    if c == "vtup":
        a = np.array(o[2]); a = {"flat": a, "rowm": np.matrix(a), "colm": np.matrix(a).T, "row": a.reshape(1, -1), "col": a.reshape(-1, 1)}[o[1]]
        t = mu.vectorToTuple(a); return [isinstance(t, tuple), list(t)]
