"""Inputs for the solid pipeline: regions of the Kuhn lattice, convex polytopes, prisms."""
import itertools

PERM = list(itertools.permutations(range(3)))


def sub(a, b):
    return [a[i] - b[i] for i in range(3)]


def cross(u, v):
    return (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])


def dot(u, v):
    return u[0] * v[0] + u[1] * v[1] + u[2] * v[2]


def odet(a, b, c, d):
    return dot(sub(d, a), cross(sub(b, a), sub(c, a)))


# ------------------------------------------------------------------ Kuhn lattice
def kuhn(cell):
    (x, p) = cell
    v, cur = [x], list(x)
    for a in p:
        cur = cur[:]
        cur[a] += 1
        v.append(tuple(cur))
    return v


def boundary(cells):
    cnt = {}
    for c in cells:
        v = kuhn(c)
        for i in range(4):
            f = [v[j] for j in range(4) if j != i]
            if odet(f[0], f[1], f[2], v[i]) > 0:
                f = [f[0], f[2], f[1]]
            k = frozenset(f)
            if k in cnt:
                del cnt[k]
            else:
                cnt[k] = f
    return list(cnt.values())


def cent(c):
    v = kuhn(c)
    return tuple(5 * v[0][i] + 3 * v[1][i] + 2 * v[2][i] + 2 * v[3][i] for i in range(3))


def all_cells(m):
    return [((x, y, z), p) for x in range(m) for y in range(m) for z in range(m) for p in PERM]


def region(rng, m):
    t, C = rng.random(), all_cells(m)
    if t < 0.3:
        return set(rng.sample(C, rng.randint(1, min(10, len(C)))))
    if t < 0.6:
        lo = [rng.randint(0, m - 1) for _ in range(3)]
        hi = [rng.randint(x + 1, m) for x in lo]
        R = {c for c in C if all(lo[i] <= c[0][i] < hi[i] for i in range(3))}
        if t < 0.4:
            R -= set(rng.sample(sorted(R), rng.randint(1, min(3, len(R)))))
        return R or set(rng.sample(C, 1))
    if t < 0.8:
        while True:
            K = [(rng.randint(0, 1), rng.randint(m - 1, m)) for _ in range(3)]
            D = [(rng.randint(-m, 0), rng.randint(0, m)) for _ in range(3)]
            R = set()
            for c in C:
                q = cent(c)
                if all(12 * K[i][0] < q[i] < 12 * K[i][1] for i in range(3)) and all(
                    12 * D[i][0] < q[i] - q[(i + 1) % 3] < 12 * D[i][1] for i in range(3)
                ):
                    R.add(c)
            if R:
                return R
    return {c for c in C if rng.random() < 0.5} or {C[0]}


# ------------------------------------------------------------------ convex polytopes
def hull(P):
    """faces of the convex hull of distinct integer points: (loop, normal, all indices on the plane)"""
    planes, n = {}, len(P)
    for a, b, c in itertools.combinations(range(n), 3):
        nn = cross(sub(P[b], P[a]), sub(P[c], P[a]))
        if nn == (0, 0, 0):
            continue
        s = [dot(nn, sub(P[d], P[a])) for d in range(n)]
        if not any(s):
            return None
        if all(x <= 0 for x in s):
            pass
        elif all(x >= 0 for x in s):
            nn = tuple(-x for x in nn)
        else:
            continue
        planes[frozenset(d for d in range(n) if s[d] == 0)] = nn
    polys = []
    for on, nn in sorted(planes.items(), key=lambda x: sorted(x[0])):
        on = sorted(on)

        def left(a, b, c):
            return dot(cross(sub(P[b], P[a]), sub(P[c], P[a])), nn)

        def d2(a, b):
            return dot(sub(P[a], P[b]), sub(P[a], P[b]))

        st = min(on, key=lambda i: P[i])
        cur, loop = st, []
        while True:
            loop.append(cur)
            nx = None
            for c in on:
                if c == cur:
                    continue
                if nx is None:
                    nx = c
                    continue
                x = left(cur, nx, c)
                if x < 0 or (x == 0 and d2(cur, c) > d2(cur, nx)):
                    nx = c
            cur = nx
            if cur == st:
                break
        polys.append((loop, nn, on))
    return polys or None


def tri_poly(rng, P, loop, nn, on, extra):
    T, poly = [], loop[:]
    while len(poly) > 3:
        i = rng.randrange(len(poly))
        T.append((poly[i - 1], poly[i], poly[(i + 1) % len(poly)]))
        poly.pop(i)
    T.append(tuple(poly))
    for p in on:
        if p in loop or rng.random() >= extra:
            continue
        N = []
        for t in T:
            s = []
            for i in range(3):
                a, b = t[i], t[(i + 1) % 3]
                s.append(dot(cross(sub(P[b], P[a]), sub(P[p], P[a])), nn))
            if min(s) < 0:
                N.append(t)
                continue
            for i in range(3):
                if s[i] > 0:
                    N.append((t[i], t[(i + 1) % 3], p))
        T = N
    return T


def hull_faces(rng, P, extra):
    h = hull(P)
    if not h:
        return None
    return [tuple(P[i] for i in t) for loop, nn, on in h for t in tri_poly(rng, P, loop, nn, on, extra)]


def some_hull(rng, M, k=None, m=None, tweak=None):
    while True:
        n = k or rng.choice([4, 4, 5, 6, 8, 12])
        w = m or rng.choice([2, M, M])
        o = [rng.randint(0, M - w) for _ in range(3)]
        P = [tuple(o[i] + rng.randint(0, w) for i in range(3)) for _ in range(n)]
        if tweak:
            P = [tweak(p) for p in P]
        P = list(dict.fromkeys(P))
        if len(P) < 4:
            continue
        F = hull_faces(rng, P, rng.choice([0, 1]))
        if F:
            return F


def hulls(rng):
    M = rng.choice([2, 3, 3, 4, 6])
    S = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        if S and rng.random() < 0.15:
            S.append(rng.choice(S)[:])
        else:
            S.append(some_hull(rng, M))
    return S


def on_big_face(rng):
    M = rng.choice([4, 6])
    if rng.random() < 0.5:
        P = [(x, y, z) for x in (0, M) for y in (0, M) for z in (0, M)]
    else:
        P = [(0, 0, 0), (M, 0, 0), (0, M, 0), (0, 0, M)]
    S = [hull_faces(rng, P, 0)]
    a, lev = rng.randrange(3), rng.choice([0, 0, M])

    def tweak(p):
        q = list(p)
        t = rng.random()
        if t < 0.6:
            q[a] = lev
        elif t < 0.8:
            q[a] = max(0, lev + rng.choice([-1, 1]) * rng.randint(0, 2))
        return tuple(q)

    for _ in range(rng.choice([1, 2, 3, 5])):
        S.append(some_hull(rng, M, rng.choice([4, 5, 6]), rng.choice([1, 2, 2, 3]), tweak))
    return S


# ------------------------------------------------------------------ probes
def probes(rng, tris, M, tries, most, U=64):
    """points (times U) clear of all planes, one per sign vector"""
    planes = {}
    for a, b, c in tris:
        n = cross(sub(b, a), sub(c, a))
        if n == (0, 0, 0):
            continue
        planes[(n, dot(n, a))] = dot(n, n) ** 0.5
    planes = [(n, d * U, ln) for (n, d), ln in planes.items()]
    if not tris:
        return []
    lo = [min(p[i] for t in tris for p in t) for i in range(3)]
    hi = [max(p[i] for t in tris for p in t) for i in range(3)]
    best = {}
    for _ in range(tries):
        q = tuple(rng.randint(U * lo[i] - 6, U * hi[i] + 6) for i in range(3))
        sv, dist = [], 1e9
        for n, d, ln in planes:
            x = dot(n, q) - d
            dist = min(dist, abs(x) / ln)
            if dist < 4:
                break
            sv.append(x > 0)
        if dist < 4:
            continue
        k = tuple(sv)
        if k not in best or best[k][0] < dist:
            best[k] = (dist, q)
    Q = [q for _, q in best.values()]
    rng.shuffle(Q)
    return [list(q) for q in Q[:most]]


# ------------------------------------------------------------------ records
def record(rng, S, lattice=None, mat=None, most=45):
    """S: list of shells (lists of triangles of points)"""
    pts, tris, sh = {}, [], []
    order = [(s, f) for s, F in enumerate(S) for f in F]
    rng.shuffle(order)
    for s, f in order:
        k = rng.randrange(3)
        f = list(f[k:]) + list(f[:k])
        tris.append([pts.setdefault(tuple(v), len(pts)) for v in f])
        sh.append(s)
    P = [list(p) for p in sorted(pts, key=pts.get)]
    r = dict(op="solid", f="tri", pts=P, tris=tris, shells=sh, closed=list(range(len(S))), k=30, s=0, off=0, exp="", gap="", drop=[])
    if lattice is not None:
        r.update(om=1, pm=12, exact=True, clear=True, cells=[[list(v) for v in kuhn(c)] for c in lattice], q=[list(cent(c)) for c in lattice])
        if mat:
            ap = lambda p: [sum(mat[i][j] * p[j] for j in range(3)) for i in range(3)]
            d = dot(mat[0], cross(mat[1], mat[2]))
            r["pts"] = [ap(p) for p in P]
            r["q"] = [ap(p) for p in r["q"]]
            r["cells"] = []
            if d < 0:
                r["tris"] = [[a, c, b] for a, b, c in tris]
    else:
        r.update(om=64, pm=64, exact=False, clear=True, cells=[], q=probes(rng, [t for F in S for t in F], 0, 500, most))
    return r


MATS = [
    [[2, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 1, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [1, 1, 0], [0, 1, 2]],
    [[0, 1, 0], [0, 0, 1], [1, 0, 0]], [[-1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 2, 0], [0, 1, 1], [1, 0, 1]],
    [[1, -1, 0], [1, 1, 0], [0, 0, 1]], [[2, 1, 0], [-1, 2, 0], [0, 1, 1]], [[1, 1, 1], [0, 1, 1], [0, 0, 1]],
    [[1, 0, 0], [0, 1, 0], [1, 1, 3]], [[3, 1, 0], [0, 1, 0], [0, 0, 1]],
]


def kuhn_case(rng, mmax=3, mat=True):
    m = rng.choice([1, 2, 2, 2, mmax])
    n = rng.choice([1, 1, 2, 2, 3])
    regs = [region(rng, m) for _ in range(n)]
    if n > 1 and rng.random() < 0.1:
        regs[1] = regs[0]
    r = record(rng, [boundary(sorted(R)) for R in regs], all_cells(m), rng.choice(MATS) if mat and rng.random() < 0.5 else None)
    return r


def slivers(rng, P, T, L):
    """put triangles without area among the others"""
    for _ in range(rng.randint(1, 3)):
        a, b = rng.randrange(len(P)), rng.randrange(len(P))
        t = rng.random()
        if t < 0.3:
            f = rng.choice([[a, b, b], [a, b, a], [a, a, b], [a, a, a]])
        elif t < 0.6:      # a copy of a corner
            P.append(P[a][:])
            f = [a, b, len(P) - 1]
            rng.shuffle(f)
        else:
            for _ in range(60):
                f = [rng.randrange(len(P)) for _ in range(3)]
                p, q, w = (tuple(P[v]) for v in f)
                if len({p, q, w}) == 3 and cross(sub(q, p), sub(w, p)) == (0, 0, 0):
                    break
            else:
                f = [a, a, b]
        i = rng.randint(0, len(T))
        T.insert(i, f)
        L.insert(i, rng.randint(0, max(L) + 1))


def closed_case(rng):
    t = rng.random()
    if t < 0.5:
        r = kuhn_case(rng)
    elif t < 0.8:
        r = record(rng, hulls(rng))
    else:
        r = record(rng, on_big_face(rng))
    if rng.random() < 0.15:
        slivers(rng, r["pts"], r["tris"], r["shells"])
    if rng.random() < 0.25:
        r["s"] = rng.choice([-15, -3, 5, 40])
    if rng.random() < 0.25 and r["exact"]:
        r["off"] = rng.choice([-5, 1000, -70000])
    return r


def shake(rng, r):
    """move the points by next to nothing: what coincided almost coincides, what was flat almost is"""
    T, P, L = r["tris"], r["pts"], r["shells"]
    if rng.random() < 0.5:        # every shell has points of its own
        idx = {}
        T = [[idx.setdefault((s, v), len(idx)) for v in t] for s, t in zip(L, T)]
        P = [P[v][:] for _, v in idx]
    s = rng.choice([0, 0, 10, 20, -18])
    amp = rng.choice([1, 1, 2, 5, 100])
    bits = rng.choice([20, 21, 30, 40, 41]) + (7 if amp == 100 else 0)
    part = rng.choice([1, 1, 1, 0.5, 0.1])
    jit = [[i] + [rng.randint(-amp, amp) for _ in range(3)] + [s - bits] for i in range(len(P)) if rng.random() < part]
    r.update(pts=P, tris=T, s=s, off=0, jit=jit, om=64, pm=64, exact=False, clear=True, cells=[], gap="", rough=True)
    r["q"] = probes(rng, [tuple(tuple(P[v]) for v in t) for t in T], 0, 500, 30)
    return r


def shaken_case(rng):
    while True:
        t = rng.random()
        r = kuhn_case(rng, 2) if t < 0.4 else record(rng, hulls(rng)) if t < 0.8 else record(rng, on_big_face(rng))
        if len(r["tris"]) <= 90:
            return shake(rng, r)


# ------------------------------------------------------------------ shells that are not complete
def area2(t):
    n = cross(sub(t[1], t[0]), sub(t[2], t[0]))
    return dot(n, n) ** 0.5


def coplanar_normals(S):
    return {plane_key(t) for t in S}


def plane_key(t):
    from math import gcd
    n = cross(sub(t[1], t[0]), sub(t[2], t[0]))
    g = gcd(gcd(abs(n[0]), abs(n[1])), abs(n[2]))
    n = tuple(x // g for x in n)
    if n < tuple(-x for x in n):
        n = tuple(-x for x in n)
    return n, dot(n, t[0])


def flat_patch(rng, M):
    """one triangle, or a planar convex polygon in triangles"""
    while True:
        P = [tuple(rng.randint(0, M) for _ in range(3)) for _ in range(3)]
        n = cross(sub(P[1], P[0]), sub(P[2], P[0]))
        if n != (0, 0, 0):
            break
    T = [tuple(P)]
    if rng.random() < 0.5:
        d = tuple(P[1][i] + P[2][i] - P[0][i] for i in range(3))
        if all(0 <= x <= M for x in d):
            T.append((P[2], P[1], d))
    return T


def sealed_case(rng):
    """a complete shell and, well apart from it, anything, all of one label"""
    F = some_hull(rng, 3, rng.choice([4, 6, 8]), rng.choice([1, 2, 3]))
    a, d = rng.randrange(3), rng.choice([-1, 1])
    lim = max(d * p[a] for f in F for p in f) + 1
    def away(f):
        return all(d * p[a] >= lim for p in f)
    G = []
    while not G:
        for _ in range(rng.randint(1, 6)):
            o = [rng.randint(-1, 1) for _ in range(3)]
            o[a] = d * (lim + (0 if d > 0 else 3))
            T = flat_patch(rng, 3) if rng.random() < 0.6 else rng.sample(K := some_hull(rng, 3, 6), rng.randint(1, len(K) - 1))
            T = [tuple(tuple(p[i] + o[i] for i in range(3)) for p in f) for f in T]
            G += [f for f in T if away(f)]
    r = record(rng, [F, G])
    r.update(closed=[0], lab=[0] * len(r["shells"]), exp="any", clear=False)
    return r


def sharp(f, F):
    """whether a face that touches f meets it at less than some 70 degrees: then giving up a part of that face and
    closing the gap across the inside may cost less than the missing triangle"""
    unit = lambda t: (lambda n: [x / dot(n, n) ** 0.5 for x in n])(cross(sub(t[1], t[0]), sub(t[2], t[0])))
    return any(set(f) & set(g) and -dot(unit(f), unit(g)) > 0.3 for g in F)


def open_case(rng):
    t = rng.random()
    if t < 0.15:
        return gap_case(rng)
    if t < 0.2:
        return sealed_case(rng)
    t = rng.random()
    M = rng.choice([2, 3, 4])
    if t < 0.08:
        # degenerate triangles next to complete shells or alone
        S = [some_hull(rng, M) for _ in range(rng.choice([0, 0, 1, 2]))]
        n = len(S)
        D = []
        for _ in range(rng.choice([0, 1, 3])):
            a = tuple(rng.randint(0, M) for _ in range(3))
            d = rng.choice([(0, 0, 0), (1, 0, 0), (0, 1, 1), (1, -1, 0), (1, 1, 1)])
            f = [tuple(a[i] + j * d[i] for i in range(3)) for j in rng.choice([(0, 1, 1), (0, 1, 2), (0, 0, 0), (2, 0, 1)])]
            D.append(tuple(f))
        r = record(rng, S + [D])
        r["closed"] = list(range(n))
        r["exp"] = "union"
        r["lab"] = [min(s, max(0, n - rng.choice([0, 1]))) for s in r["shells"]] if n else r["shells"][:]
    elif t < 0.35:
        # complete shells next to flat patches in shells of their own
        S = [some_hull(rng, M) for _ in range(rng.choice([0, 1, 1, 2]))]
        n = len(S)
        S += [flat_patch(rng, M) for _ in range(rng.choice([1, 1, 2]))]
        r = record(rng, S)
        r["closed"] = list(range(n))
        r["exp"] = "union"
        r["lab"] = r["shells"][:]
    elif t < 0.6:
        # a flat flap in the shell it belongs to
        S = [some_hull(rng, M) for _ in range(rng.choice([1, 1, 2]))]
        pl = coplanar_normals(S[0])
        while True:
            fl = flat_patch(rng, M)
            if not ({plane_key(x) for x in fl} & pl):
                break
        n = len(S)
        r = record(rng, S + [fl])
        r["closed"] = list(range(n))
        r["lab"] = [0 if s == n else s for s in r["shells"]]
        r["exp"] = "union"
    elif t < 0.75:
        # a convex shell that lacks one small triangle
        while True:
            F = some_hull(rng, M, rng.choice([8, 12, 14]))
            A = sum(map(area2, F))
            r = record(rng, [F])
            fs = [[tuple(r["pts"][i]) for i in t] for t in r["tris"]]
            small = [i for i, f in enumerate(fs) if area2(f) < 0.08 * A and not sharp(f, fs)]
            if small:
                break
        r["drop"] = [rng.choice(small)]
        r["lab"] = r["shells"][:]
        r["exp"] = "union"
    else:
        # anything: parts of shells, soups, next to complete shells
        n = rng.choice([0, 1, 1])
        S = [some_hull(rng, M) for _ in range(n)]
        for _ in range(rng.choice([1, 2])):
            if rng.random() < 0.5:
                F = some_hull(rng, M)
                F = rng.sample(F, rng.randint(1, len(F)))
            else:
                F = [x for _ in range(rng.randint(1, 6)) for x in flat_patch(rng, M)]
            S.append(F)
        r = record(rng, S)
        r["closed"] = list(range(n))
        r["lab"] = r["shells"][:]
        r["exp"] = "any"
        r["clear"] = False
    return r


def gap_case(rng):
    """one shell that lacks some of its triangles"""
    M = rng.choice([2, 3, 4])
    if rng.random() < 0.65:
        if rng.random() < 0.5:
            d = [rng.randint(1, 6) for _ in range(3)]
            P = [(x, y, z) for x in (0, d[0]) for y in (0, d[1]) for z in (0, d[2])]
            F = hull_faces(rng, P, 0)
        else:
            F = some_hull(rng, M, rng.choice([4, 5, 6, 8, 12]))
        gap = "convex"
    else:
        F = boundary(sorted(region(rng, rng.choice([1, 2]))))
        gap = "half"
    r = record(rng, [F])
    C = [[tuple(r["pts"][i]) for i in t] for t in r["tris"]]
    n = len(C)
    if n < 4:
        return gap_case(rng)
    t = rng.random()
    if t < 0.5:
        # whole facets
        keys = sorted({plane_key(f) for f in C})
        K = set(rng.sample(keys, rng.randint(1, min(len(keys) - 1, rng.choice([1, 2, 3])))))
        drop = [i for i in range(n) if plane_key(C[i]) in K]
    else:
        drop = rng.sample(range(n), rng.randint(1, rng.choice([1, 2, n // 2])))
    r.update(drop=drop, closed=[], lab=r["shells"][:], exp="any", gap=gap, clear=False)
    return r


# ------------------------------------------------------------------ polygon faces
def polygonize(rng, F, merge=1.0, straight=0.5):
    """coplanar connected triangles of a closed surface joined to polygons (holes allowed, no pinch vertex):
    list of (directed edges as point pairs, outward normal)"""
    key = {}
    for f in F:
        n = cross(sub(f[1], f[0]), sub(f[2], f[0]))
        from math import gcd
        g = gcd(gcd(abs(n[0]), abs(n[1])), abs(n[2]))
        n = tuple(x // g for x in n)
        key.setdefault((n, dot(n, f[0])), []).append(f)
    out = []
    for (n, _), T in sorted(key.items()):
        # connected groups over shared edges
        groups = []
        if rng.random() < merge:
            own = {}
            for i, f in enumerate(T):
                for j in range(3):
                    own[(f[j], f[(j + 1) % 3])] = i
            seen = set()
            for i in range(len(T)):
                if i in seen:
                    continue
                st, G = [i], []
                seen.add(i)
                while st:
                    x = st.pop()
                    G.append(x)
                    for j in range(3):
                        y = own.get((T[x][(j + 1) % 3], T[x][j]))
                        if y is not None and y not in seen:
                            seen.add(y)
                            st.append(y)
                groups.append([T[x] for x in G])
        else:
            groups = [[f] for f in T]
        for G in groups:
            E = {}
            for f in G:
                for j in range(3):
                    a, b = f[j], f[(j + 1) % 3]
                    if (b, a) in E:
                        del E[(b, a)]
                    else:
                        E[(a, b)] = 1
            src = [a for a, _ in E]
            if len(set(src)) != len(src):
                for f in G:
                    out.append(([(f[j], f[(j + 1) % 3]) for j in range(3)], n))
                continue
            if rng.random() < straight:
                # one edge along every straight run
                nxt = dict(E)
                nxt = {a: b for a, b in E}
                prv = {b: a for a, b in E}
                for v in list(nxt):
                    a, b = prv[v], nxt[v]
                    if a != b and cross(sub(v, a), sub(b, v)) == (0, 0, 0):
                        nxt[a], prv[b] = b, a
                        del nxt[v], prv[v]
                E = {(a, b): 1 for a, b in nxt.items()}
            out.append((list(E), n))
    return out


def poly_case(rng):
    t = rng.random()
    if t < 0.6:
        r = kuhn_case(rng, mat=False)
        mat = rng.choice(MATS[3:5]) if rng.random() < 0.3 else None
    else:
        r = record(rng, hulls(rng))
        mat = None
    S = {}
    for f, s in zip(r["tris"], r["shells"]):
        S.setdefault(s, []).append(tuple(tuple(r["pts"][i]) for i in f))
    mode = rng.choice(["shared", "per face", "shell"])
    ip, faces, axes, lab, jit, idx = [], [], [], [], [], {}
    rows = [(s, poly) for s in sorted(S) for poly in polygonize(rng, S[s], rng.choice([1.0, 1.0, 0.7]), rng.choice([0.0, 1.0, 0.5]))]
    rng.shuffle(rows)
    shake = rng.random() < 0.5
    e = -10
    for fi, (s, (E, n)) in enumerate(rows):
        tag = dict(shared=0, shell=s).get(mode, fi + 100)

        def num(p, fresh=False):
            k = (tag, p)
            if fresh or k not in idx:
                idx[k] = len(ip)
                ip.append(list(p))
                if shake and rng.random() < 0.5:
                    jit.append([idx[k]] + [rng.randint(-3, 3) for _ in range(3)] + [e - 4])
            return idx[k]

        E = E[:]
        rng.shuffle(E)
        fe = []
        tiny = rng.random() < 0.2
        for a, b in E:
            ia, ib = num(a), num(b)
            fe.append([ia, ib])
        if tiny:
            # an edge between two copies of one point
            j = rng.randrange(len(fe))
            c = len(ip)
            ip.append(ip[fe[j][0]][:])
            fe.append([fe[j][0], c])
            fe[j] = [c, fe[j][1]]
        faces.append(fe)
        lab.append(s)
        a, b = E[0]
        x = list(sub(b, a))
        if rng.random() < 0.08:
            # a face within the tolerance of a point or an edge, before any other
            c, d = rng.choice(E)
            q = [c, c, c] if rng.random() < 0.5 else [c, d, d]
            i = rng.randrange(len(faces))
            m = [num(p, True) for p in q]
            faces.insert(i, [[m[0], m[1]], [m[1], m[2]], [m[2], m[0]]])
            lab.insert(i, rng.choice(rows)[0])
            axes.insert(i, [list(a), x, list(cross(n, x))])
        if rng.random() < 0.5 and len(E) > 1:
            q = rng.choice(E[1:])[1]
            if q != a:
                x = list(sub(q, a))
        axes.append([list(a), x, list(cross(n, x))])
    if rng.random() < 0.3:
        for _ in range(rng.randint(1, 3)):
            ip.append(list(rng.choice(ip)))
    r["exact"] = False      # a vertex may be kept where a triangulation met a straight edge
    r.update(f="poly", ipts=ip, faces=faces, axes=axes, lab=lab, jit=jit, eps=[1, e])
    return r


# ------------------------------------------------------------------ presentations of one solid
def same_case(rng):
    t = rng.random()
    if t < 0.4:
        r = kuhn_case(rng)
    elif t < 0.8:
        r = record(rng, hulls(rng))
    else:
        r = record(rng, on_big_face(rng))
    out = dict(op="solid", f="tri", om=r["om"], pm=r["pm"], exact=r["exact"], clear=r["clear"])
    runs = [dict(pts=r["pts"], tris=r["tris"], shells=r["shells"], q=r["q"], s=0, off=0)]
    for _ in range(rng.choice([1, 2, 3])):
        runs.append(present(rng, runs[0]))
    out["runs"] = runs
    return out


def present(rng, b):
    P, T, L, Q = [p[:] for p in b["pts"]], [t[:] for t in b["tris"]], b["shells"][:], [q[:] for q in b["q"]]
    s = off = 0
    if rng.random() < 0.2:
        return dict(pts=P, tris=T, shells=L, q=Q, s=0, off=0)      # the same again: only the drawn orders differ
    if rng.random() < 0.5:
        # signed permutation of the axes
        perm, sg = rng.choice(PERM), [rng.choice([1, -1]) for _ in range(3)]
        ap = lambda p: [sg[i] * p[perm[i]] for i in range(3)]
        P, Q = list(map(ap, P)), list(map(ap, Q))
        odd = sg[0] * sg[1] * sg[2] * (1 if perm in ((0, 1, 2), (1, 2, 0), (2, 0, 1)) else -1)
        if odd < 0:
            T = [[a, c, b] for a, b, c in T]
    if rng.random() < 0.5:
        m = list(range(max(L) + 1 + rng.choice([0, 0, 2, 5])))
        rng.shuffle(m)
        L = [m[x] for x in L]
    if rng.random() < 0.3:
        slivers(rng, P, T, L)
    if rng.random() < 0.7:
        z = list(zip(T, L))
        rng.shuffle(z)
        T, L = [x for x, _ in z], [x for _, x in z]
    T = [t[k:] + t[:k] for t in T for k in [rng.randrange(3)]]
    if rng.random() < 0.5:
        # repeated points, some used by nobody
        n = len(P)
        for _ in range(rng.randint(1, 2 * n)):
            P.append(P[rng.randrange(n)][:])
        copies = {}
        for i, p in enumerate(P):
            copies.setdefault(tuple(p), []).append(i)
        T = [[rng.choice(copies[tuple(P[v])]) for v in t] for t in T]
    if rng.random() < 0.6:
        m = list(range(len(P)))
        rng.shuffle(m)
        N = [None] * len(P)
        for i, p in enumerate(P):
            N[m[i]] = p
        P, T = N, [[m[v] for v in t] for t in T]
    if rng.random() < 0.3:
        s = rng.choice([-18, -7, 3, 30])
    if rng.random() < 0.3:
        off = rng.choice([-3, 17, 4096, -100000])
    return dict(pts=P, tris=T, shells=L, q=Q, s=s, off=off)


def run_same(c, recs):
    """execute every presentation and put the answers into the records"""
    reqs = []
    for i, r in enumerate(recs):
        for j, x in enumerate(r["runs"]):
            q = {k: v for k, v in r.items() if k not in ("runs", "id", "obs")}
            q.update({k: v for k, v in x.items() if k != "q"})
            q.update(k=30, of=i, run=j)
            reqs.append(q)
    for q in c.execute(reqs):
        recs[q["of"]]["runs"][q["run"]]["obs"] = q["obs"]
    # a record is judged when all its presentations have been executed
    return [r for r in recs if all("obs" in x for x in r["runs"])]


def shaken_open_case(rng):
    r = shake(rng, open_case(rng))
    r["exp"] = "any"
    return r


def closed_or_shaken(rng):
    return shaken_case(rng) if rng.random() < 0.15 else closed_case(rng)


def open_or_shaken(rng):
    return shaken_open_case(rng) if rng.random() < 0.15 else open_case(rng)


def any_case(rng):
    """arrangements of every kind for the closedness of the result"""
    t = rng.random()
    if t < 0.12:
        return shaken_case(rng)
    if t < 0.15:
        return shaken_open_case(rng)
    if t < 0.75:
        return closed_case(rng)
    r = open_case(rng)
    return r


def back_case(rng):
    """the result of one run is the input of the next"""
    r = closed_case(rng)
    out = dict(op="solid", f="tri", om=r["om"], pm=r["pm"], exact=False, clear=r["clear"], drop=r["drop"])
    b = dict(pts=r["pts"], tris=r["tris"], shells=r["shells"], q=r["q"], s=rng.choice([0, 0, 0, 5, 30]), off=rng.choice([0, 0, 0, 7]))
    out["runs"] = [dict(b, back=k) for k in range(rng.choice([2, 2, 3]))]
    return out
