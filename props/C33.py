from vf import check, build
def mk(): return [build.harness("inverse", ["src/matrix/matrix-svd.cpp"], "inverse.cpp")]
def orth(r, n):
    m = [[5 if i == j else 0 for j in range(n)] for i in range(n)]; r.shuffle(m)
    m = [[x * s for x in row] for row, s in zip(m, [r.choice([1, -1]) for _ in range(n)])]
    if n > 1 and r.random() < .6:           # turn two rows by the angle of the triangle 3, 4, 5
        i, j = r.sample(range(n), 2); a, b = m[i], m[j]; m[i] = [(3 * x - 4 * y) // 5 for x, y in zip(a, b)]; m[j] = [(4 * x + 3 * y) // 5 for x, y in zip(a, b)]
    return m
def hist(r):
    h = []
    for _ in range(20):
        a, b = r.randint(1, 6), r.randint(1, 6); f = r.choice(["pinv", "damp", "full", "parts"]); k = r.choice([0, 5]) if f == "pinv" else r.randint(0, 3)
        sv = [0, 1, 2, 5] if f == "pinv" else {0: [1, 2, 3, 5, 6], 1: [0, 1, 2, 3], 2: [0, 1, 2, 4], 3: [0, 1, 3]}[k]
        h.append([f, orth(r, a), [r.choice(sv) for _ in range(min(a, b))], orth(r, b), k])
    return h
def components():
    q = [{"Profile": '"flat"'}, {"Profile": '"wide"'}]
    return [check.Component("inverse", "Inverse", mk, explore={"quick": q, "thorough": q}, tconsts=q[0], trace={"quick": lambda r: [hist(r) for _ in range(100)], "thorough": lambda r: [hist(r) for _ in range(3000)]})]
