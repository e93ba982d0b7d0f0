"""C01 disjoint sets, C02 push-relabel, C03 Boykov-Kolmogorov."""
import collections


def c01(c):
    c.model("DisjointSet", "SPECIFICATION Spec\nINVARIANT Inv\nVIEW View\nCHECK_DEADLOCK FALSE\n"
            f"CONSTANTS N={c.scale(5, 6)} MaxOps={c.scale(6, 7)} Gen=0\n",
            "forest with path compression and link by rank refines the equivalence")
    hist = c.generate("DisjointSet", f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS N=4 MaxOps={c.scale(3, 4)} Gen=1\n",
                      what="all merge histories of 4 elements")
    reqs = [dict(op="ds", n=4, merges=[], every=1), dict(op="ds", n=1, merges=[[0, 0]], every=1)]
    for m in hist:
        # read once at the end: an intermediate reading compresses paths
        reqs.append(dict(op="ds", n=4, merges=m, every=len(m)))
    rng = c.rng
    for _ in range(c.scale(800, 6000)):
        n = rng.choice([2, 3, 5, 8, 12, 16, 32])
        style = rng.random()
        ms = []
        if style < 0.4:  # tournaments: equal rank links at every level, then links by inner members
            perm = list(range(n))
            rng.shuffle(perm)
            g = [[x] for x in perm]
            while len(g) > 1 and rng.random() < 0.95:
                a, b = g.pop(0), g.pop(0)
                p = [rng.choice(a), rng.choice(b)]
                if rng.random() < 0.5: p.reverse()
                ms.append(p)
                g.append(a + b)
        elif style < 0.6:
            perm = list(range(n))
            rng.shuffle(perm)
            ms = [[a, b] for a, b in zip(perm, perm[1:])]
            if rng.random() < 0.5: ms = [[b, a] for a, b in ms]
        for _ in range(rng.randint(0, n)):
            ms.insert(rng.randint(0, len(ms)), [rng.randrange(n), rng.randrange(n)])
        reqs.append(dict(op="ds", n=n, merges=ms, every=rng.choice([1, 2, 3, 7, max(1, len(ms))])))
    for _ in range(c.scale(60, 600)):
        reqs.append(tower(rng))
    c.judge("DsTrace", c.execute(reqs))
    return c.finish()


def tower(rng):
    """balanced merging by representatives only: nothing gets compressed until the one reading at the end"""
    n = rng.choice([16, 32, 64, 64, 128, 200])
    perm = list(range(n))
    if rng.random() < 0.5: rng.shuffle(perm)
    side, flip = rng.random() < 0.5, rng.random() < 0.5
    g = [[x] for x in perm]
    ms = []
    while len(g) > 1:
        nx = []
        for a, b in zip(g[::2], g[1::2]):
            p = [a[0], b[0]]
            ms.append(p[::-1] if flip else p)
            nx.append(a + b if side else b + a)
        if len(g) % 2: nx.append(g[-1])
        g = nx
    if rng.random() < 0.5:  # leave several groups, or add merges through inner members
        ms = ms[:len(ms) - rng.randint(0, 4)]
    if rng.random() < 0.3:
        ms += [[rng.randrange(n), rng.randrange(n)] for _ in range(rng.randint(1, 4))]
    return dict(op="ds", n=n, merges=ms, every=len(ms))


# ---------------------------------------------------------------- networks
def net(rng, n, m, cmax, p0=0.35):
    cap = lambda: 0 if rng.random() < p0 else rng.randint(1, cmax)
    src = [cap() for _ in range(n)]
    snk = [cap() for _ in range(n)]
    if rng.random() < 0.5:
        for i in range(n):
            if src[i] and snk[i] and rng.random() < 0.8:
                if rng.random() < 0.5: src[i] = 0
                else: snk[i] = 0
    arcs = []
    for _ in range(m):
        if n < 2: break
        i, j = rng.sample(range(n), 2)
        c, r = cap(), cap()
        q = rng.random()
        if q < 0.3: r = c
        elif q < 0.5: r = 0
        arcs.append([i, j, c, r])
    return src, snk, arcs


def shaped(rng, n):
    """long chains, grids, layered nets: several phases, relabelling and orphan adoption"""
    cap = lambda m: rng.randint(0, m)
    kind = rng.choice(["chain", "grid", "layer", "ladder", "rand"])
    m = rng.choice([1, 2, 3, 10, 1000])
    src, snk, arcs = [0] * n, [0] * n, []
    if kind == "chain":
        for i in range(n - 1):
            arcs.append([i, i + 1, rng.randint(1, m), cap(m)])
        for _ in range(rng.randint(1, n)):
            i, j = rng.sample(range(n), 2)
            arcs.append([i, j, cap(m), cap(m)])
    elif kind == "grid":
        w = max(2, int(n ** 0.5))
        for i in range(n):
            if (i + 1) % w and i + 1 < n: arcs.append([i, i + 1, cap(m), cap(m)])
            if i + w < n: arcs.append([i, i + w, cap(m), cap(m)])
    elif kind == "layer":
        w = rng.randint(2, 4)
        for i in range(n):
            for j in range(i + 1, n):
                if j // w == i // w + 1 and rng.random() < 0.7: arcs.append([i, j, cap(m), rng.choice([0, cap(m)])])
    elif kind == "ladder":
        for i in range(0, n - 2, 2):
            arcs += [[i, i + 2, rng.randint(1, m), 0], [i + 1, min(n - 1, i + 3), 0, rng.randint(1, m)]] if i + 1 != min(n - 1, i + 3) else [[i, i + 2, 1, 0]]
            arcs.append([i, i + 1, cap(m), cap(m)])
    else:
        for _ in range(3 * n):
            i, j = rng.sample(range(n), 2)
            arcs.append([i, j, cap(m), cap(m)])
    for _ in range(rng.randint(1, max(1, n // 3))):
        src[rng.randrange(n)] = rng.randint(1, 2 * m)
        snk[rng.randrange(n)] = rng.randint(1, 2 * m)
    if kind in ("chain", "ladder"):
        src[0] += m
        snk[n - 1] += m
    perm = list(range(n))
    rng.shuffle(perm)
    s2, t2 = [0] * n, [0] * n
    for i in range(n):
        s2[perm[i]], t2[perm[i]] = src[i], snk[i]
    arcs = [[perm[a], perm[b], x, y] for a, b, x, y in arcs if a != b]
    rng.shuffle(arcs)
    return s2, t2, arcs


def certificate(src, snk, arcs):
    """a maximum flow (augmenting shortest paths); TLC checks it, so it need not be trusted"""
    n = len(src)
    S, T = n, n + 1
    g = [[] for _ in range(n + 2)]  # edge ids
    to, cap = [], []

    def add(u, v, c, r):
        g[u].append(len(to)); to.append(v); cap.append(c)
        g[v].append(len(to)); to.append(u); cap.append(r)
    for i in range(n):
        add(S, i, src[i], 0)
    for i in range(n):
        add(i, T, snk[i], 0)
    for a, b, c, r in arcs:
        add(a, b, c, r)
    while True:
        pre = {S: None}
        q = collections.deque([S])
        while q and T not in pre:
            u = q.popleft()
            for e in g[u]:
                if cap[e] > 0 and to[e] not in pre:
                    pre[to[e]] = e
                    q.append(to[e])
        if T not in pre: break
        v, b = T, 1 << 60
        while v != S:
            e = pre[v]; b = min(b, cap[e]); v = to[e ^ 1]
        v = T
        while v != S:
            e = pre[v]; cap[e] -= b; cap[e ^ 1] += b; v = to[e ^ 1]
    fs = [cap[2 * i + 1] for i in range(n)]
    ft = [cap[2 * (n + i) + 1] for i in range(n)]
    fa = [arcs[k][2] - cap[2 * (2 * n + k)] for k in range(len(arcs))]
    return dict(has=1, fs=fs, ft=ft, fa=fa, cut=[i + 1 for i in range(n) if i in pre])


def flow_reqs(c, solvers):
    rng, out = c.rng, []

    def put(src, snk, arcs, cert):
        for s in solvers:
            out.append(dict(op="flow", solver=s, src=src, snk=snk, arcs=arcs, s=rng.choice([0, 0, -3, 5]), cert=cert))
    for n, cap, m in c.scale([(1, 3, 0), (2, 2, 1), (2, 1, 2), (3, 1, 1)], [(1, 4, 0), (2, 2, 2), (2, 1, 3), (3, 1, 2), (3, 2, 1)]):
        gens = c.generate("FlowGen", f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS N={n} MaxCap={cap} MaxArcs={m}\n",
                          what=f"all networks of {n} nodes, capacities to {cap}, up to {m} arcs in every order")
        for src, snk, arcs in gens:
            put(src, snk, arcs, dict(has=0))
    for _ in range(c.scale(1500, 12000)):
        n = rng.randint(2, 7)
        put(*net(rng, n, rng.randint(0, 3 * n), rng.choice([1, 2, 3, 9, 100]), rng.choice([0.1, 0.35, 0.6])), dict(has=0))
    for _ in range(c.scale(700, 6000)):
        n = rng.choice([6, 9, 12, 16, 25, 40])
        w = shaped(rng, n) if rng.random() < 0.8 else net(rng, n, 2 * n, rng.choice([1, 3, 100]))
        put(*w, certificate(*w))
    return out


PR_CFG = "SPECIFICATION Spec\nINVARIANT Inv\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\nCONSTANTS N=%d MaxCap=%d\n"
FLOW_ASSUME = ["capacities are such that all sums are exactly representable (integers up to 2000 times a power of two)"]


def c02(c):
    for n, m in c.scale([(2, 2), (3, 1)], [(2, 4), (3, 1)]):
        c.model("PushRelabel", PR_CFG % (n, m), f"push-relabel with gap and global relabelling, every network of {n} nodes, capacities to {m}")
    c.judge("FlowTrace", c.execute(flow_reqs(c, ["pri", "prf"])))
    return c.finish(assumptions=FLOW_ASSUME)


def c03(c):
    for n, m in c.scale([(2, 2), (3, 1)], [(2, 4), (3, 1)]):
        c.model("SearchTrees", PR_CFG % (n, m), f"search trees, augmentation and adoption, every network of {n} nodes, capacities to {m}")
    c.judge("FlowTrace", c.execute(flow_reqs(c, ["bk"])))
    return c.finish(assumptions=FLOW_ASSUME)


TABLE = dict(C01=c01, C02=c02, C03=c03)
