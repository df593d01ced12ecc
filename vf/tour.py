"""Cover every transition of an explored state graph by short histories."""
import json
from collections import deque

def canon(x): return json.dumps(x, sort_keys=True)

def tours(inits, edges, maxlen=60):
    """Yields lists of edges; each list starts in an initial state."""
    succ = {}
    for e in edges:
        succ.setdefault(canon(e[0]), []).append((e, canon(e[3])))
    starts = [canon(i) for i in inits]
    # shortest prefix to each node
    pre = {}
    q = deque()
    for s in starts:
        if s not in pre:
            pre[s] = None; q.append(s)
    while q:
        n = q.popleft()
        for e, t in succ.get(n, ()):
            if t not in pre:
                pre[t] = (n, e); q.append(t)
    def prefix(n):
        p = []
        while pre[n] is not None:
            m, e = pre[n]; p.append(e); n = m
        return p[::-1]
    todo = {n: list(range(len(v))) for n, v in succ.items() if n in pre}
    order = sorted(todo, key=lambda n: len(prefix(n)), reverse=False)
    unreached = [n for n in succ if n not in pre]
    out = []
    oi = 0
    def nearest(n, limit=400):
        """short path from n to a node with uncovered edges"""
        seen = {n: None}; q = deque([n]); k = 0
        while q and k < limit:
            x = q.popleft(); k += 1
            if todo.get(x):
                p = []
                while seen[x] is not None:
                    y, e = seen[x]; p.append(e); x = y
                return p[::-1]
            for e, t in succ.get(x, ()):
                if t not in seen:
                    seen[t] = (x, e); q.append(t)
        return None
    while True:
        while oi < len(order) and not todo[order[oi]]: oi += 1
        if oi >= len(order): break
        n = order[oi]
        path = prefix(n)
        cur = n
        covered = 0
        while len(path) < maxlen or not covered:
            if todo.get(cur):
                covered += 1
                k = todo[cur].pop()
                e, t = succ[cur][k]
                path.append(e); cur = t
            else:
                p = nearest(cur)
                if not p or len(path) + len(p) >= maxlen: break
                path += p; cur = canon(path[-1][3])
        if not path: break
        # first visit guarantees progress
        out.append(path)
    return out, len(unreached)

def probed(inits, edges, maxlen, budget, rng):
    """Histories that cover the transitions which change the state, with the operations that never change it
    (evaluations, refusals) repeated after each of them: a result kept from before a change shows up."""
    keep, reads = [], {}
    for e in edges:
        o = canon(e[1])
        if canon(e[0]) != canon(e[3]): reads[o] = False
        else: reads.setdefault(o, True)
    at = {}
    for e in edges:
        if reads[canon(e[1])]: at.setdefault(canon(e[0]), {})[canon(e[1])] = e
        else: keep.append(e)
    ops = sorted(o for o, r in reads.items() if r)
    if not ops or not keep: return
    paths, _ = tours(inits, keep, maxlen)
    n = sum(len(p) for p in paths)
    k = max(1, min(len(ops), budget // max(1, n)))
    rng.shuffle(paths)
    for p in paths:
        mine = rng.sample(ops, k)
        out = []
        for e in p:
            out.append(e)
            a = at.get(canon(e[3]), {})
            rng.shuffle(mine)
            out += [a[o] for o in mine if o in a]
        yield out
