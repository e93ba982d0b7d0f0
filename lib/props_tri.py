"""C14 Delaunay triangulation, C15 constrained regions, C16 polygon soups, C19 duplicate removal."""
import itertools
from fullgen import coord, digits, rnd
from props_pred import padd, lift, rdir, cross, SCALE_NOTE


def val(c, k=30):
    return sum(x << (k * i) for i, x in enumerate(c))


# ------------------------------------------------------------------ triangulations in python (only to build inputs)
def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def sweep(P):
    """some triangulation of distinct integer points, as ccw index triples"""
    idx = sorted(range(len(P)), key=lambda i: P[i])
    chain, rest = [idx[0]], idx[1:]
    while rest and (len(chain) < 2 or orient(P[chain[0]], P[chain[1]], P[rest[0]]) == 0):
        chain.append(rest.pop(0))
    if not rest:
        return []
    p = rest.pop(0)
    T = []
    if orient(P[chain[0]], P[chain[1]], P[p]) > 0:
        hull = chain + [p]
    else:
        hull = chain[::-1] + [p]
    for a, b in zip(hull, hull[1:-1]):
        T.append((a, b, p))
    for p in rest:
        n = len(hull)
        vis = [orient(P[hull[i]], P[hull[(i + 1) % n]], P[p]) < 0 for i in range(n)]
        s = next(i for i in range(n) if vis[i] and not vis[i - 1])
        e = s
        while vis[e % n]:
            T.append((hull[(e + 1) % n], hull[e % n], p))
            e += 1
        # keep hull from e round to s
        keep = [hull[(e + j) % n] for j in range((s - e) % n + 1)]
        hull = keep + [p]
    return T


def flips(rng, P, T, n):
    T = [tuple(t) for t in T]
    for _ in range(n):
        emap = {}
        for ti, t in enumerate(T):
            for i in range(3):
                emap[(t[i], t[(i + 1) % 3])] = (ti, t[(i + 2) % 3])
        inner = [e for e in emap if (e[1], e[0]) in emap and e[0] < e[1]]
        if not inner:
            return T
        a, b = rng.choice(inner)
        t1, c = emap[(a, b)]
        t2, d = emap[(b, a)]
        if orient(P[c], P[d], P[b]) > 0 and orient(P[d], P[c], P[a]) > 0:
            T[t1] = (c, a, d)
            T[t2] = (d, b, c)
    return T


def region(rng, n, m, merge=0.7, flipn=20, keep=False):
    """points and directed boundary segments of a union of triangles of a random triangulation;
    with keep, a vertex where several boundary parts meet stays the end of one of them"""
    while True:
        P = rng.sample([(x, y) for x in range(m) for y in range(m)], min(n, m * m))
        T = sweep(P)
        if len(T) < 1:
            continue
        T = flips(rng, P, T, flipn)
        dens = rng.choice([0.3, 0.6, 0.85, 1.0])
        # grow a connected-ish subset, or just sample
        S = [t for t in T if rng.random() < dens]
        if not S:
            continue
        E = {(t[i], t[(i + 1) % 3]) for t in S for i in range(3)}
        B = [e for e in E if (e[1], e[0]) not in E]
        segs = [list(e) for e in sorted(B)]
        rng.shuffle(segs)
        changed = True
        passed = set()
        while changed:
            changed = False
            for i in range(len(segs)):
                for j in range(len(segs)):
                    if i != j and segs[i][1] == segs[j][0] and not (keep and segs[i][1] in passed):
                        a, b, c = P[segs[i][0]], P[segs[i][1]], P[segs[j][1]]
                        if orient(a, b, c) == 0 and (b[0] - a[0]) * (c[0] - b[0]) + (b[1] - a[1]) * (c[1] - b[1]) > 0 and rng.random() < merge:
                            passed.add(segs[i][1])
                            segs[i] = [segs[i][0], segs[j][1]]
                            segs.pop(j)
                            changed = True
                            break
                if changed:
                    break
        return P, segs


def affine2(rng, P, segs, big=False):
    """an orientation preserving or reversing integer map; reversal turns the segments round"""
    while True:
        M = [rng.randint(-3, 3) for _ in range(4)] if rng.random() < 0.7 else [1, 0, 0, 1]
        d = M[0] * M[3] - M[1] * M[2]
        if d:
            break
    Q = [(M[0] * x + M[1] * y, M[2] * x + M[3] * y) for x, y in P]
    if d < 0:
        segs = [[b, a] for a, b in segs]
    return Q, segs


def tri2_delaunay(rng):
    mode = rng.choice(["int", "int", "lev", "big"])
    if mode == "big":
        n = rng.randint(10, 32)
        m = rng.choice([6, 7, 20])
    else:
        n = rng.choice([0, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10])
        m = rng.choice([2, 3, 4, 9])
    kind = rng.random()
    cells = [(x, y) for x in range(m) for y in range(m)]
    if kind < 0.12:
        cells = [(x, rng.randint(0, 0)) for x in range(14)]
        cells = [(x, x * rng.choice([0])) for x, _ in cells] if rng.random() < 0.5 else [(0, x) for x, _ in cells]
    elif kind < 0.2:
        cells = [(i, 2 * i) for i in range(12)] + [(1, 0)] * (rng.random() < 0.5)
    elif kind < 0.3:  # a circle of lattice points
        cells = [(a, b) for a in range(-7, 8) for b in range(-7, 8) if a * a + b * b in (25, 50, 0)]
    P = rng.sample(cells, min(n, len(cells)))
    pts = [[[x], [y]] for x, y in P]
    off = 0
    if mode == "lev":
        # leading part degenerate, the small part decides; some points closer than the leading grid
        pts = [[lift(x, 1), lift(y, 1)] for x, y in P]
        for p in pts:
            for c in range(2):
                if rng.random() < 0.4:
                    p[c] = padd(p[c], [rng.randint(-1, 1)])
        if pts and rng.random() < 0.5:
            q = rng.choice(pts)
            pts.append([padd(q[0], [rng.randint(-2, 2)]), padd(q[1], [rng.randint(-2, 2)])])
        seen, keep = set(), []
        for p in pts:
            v = (val(p[0]), val(p[1]))
            if v not in seen:
                seen.add(v)
                keep.append(p)
        pts = keep
    elif rng.random() < 0.2:
        off = rng.choice([1 << 50, -(1 << 50) + 11])
    return dict(op="tri2", f="delaunay", pts=pts, segs=[], k=30, s=rng.choice([0, 0, -30, 13]), off=off)


def tri2_many(rng):
    """hundreds of points: a lattice, a random cloud, clusters, points around circles, long thin clouds"""
    n = rng.choice([60, 100, 200, 400, 800, 1200])
    t = rng.randrange(7)
    if t == 0:
        w = int(n ** 0.5) + 1
        P = [(x, y) for x in range(w) for y in range(w)]
        if rng.random() < 0.5:
            P = [p for p in P if rng.random() < 0.8]
    elif t == 1:
        P = [(rng.randint(0, 2000), rng.randint(0, 2000)) for _ in range(n)]
    elif t == 2:
        P = []
        while len(P) < n:
            c = (rng.randint(-900, 900), rng.randint(-900, 900))
            P += [(c[0] + rng.randint(-5, 5), c[1] + rng.randint(-5, 5)) for _ in range(30)]
    elif t == 3:
        P = [(0, 0)] * (rng.random() < 0.5)
        for N in rng.sample([5525, 27625, 71825, 32045], 2):
            P += [(a, b) for a in range(-270, 271) for b in range(-270, 271) if a * a + b * b == N]
        P += [(rng.randint(-200, 200), rng.randint(-200, 200)) for _ in range(rng.choice([0, 3, 60]))]
    elif t == 4:
        P = [(rng.randint(0, 3000), rng.randint(0, rng.choice([1, 3, 8]))) for _ in range(n)]
        if rng.random() < 0.5:
            P = [(y, x) for x, y in P]
    elif t == 5:
        P = [(x, x * x % 1009) for x in range(min(n, 1009))]
    else:      # whole mantissas, many nearly on lines and circles
        P = []
        while len(P) < min(n, 200):
            a = [coord(rng, 53, 0) for _ in range(4)]
            P += [(a[0], a[1]), (a[2], a[3]), (a[0], a[3]), (rnd((a[0] + a[2]) / 2), rnd((a[1] + a[3]) / 2)), (a[2], a[1])]
    P = list(dict.fromkeys(P))
    rng.shuffle(P)
    return dict(op="tri2", f="many", pts=[[digits(x), digits(y)] for x, y in P], segs=[], k=12, s=rng.choice([0, -30]), off=0)


def evidence(recs):
    """the triangle across every side"""
    for r in recs:
        T = r["obs"].get("tris", [])
        at = {(t[i], t[(i + 1) % 3]): j for j, t in enumerate(T) for i in range(len(t)) if len(t) == 3}
        r["nb"] = [[at.get((t[(i + 1) % 3], t[i]), -1) for i in range(3)] if len(t) == 3 else [-1] * 3 for t in T]
    return recs


def flat(rng):
    """a polygon without area: there and back along a line, stopping at different points"""
    n = rng.randint(2, 5)
    d = rng.choice([(1, 0), (0, 1), (1, 1), (2, -1)])
    P = [(d[0] * i, d[1] * i) for i in range(n)]
    way = lambda: [0] + [i for i in range(1, n - 1) if rng.random() < 0.6] + [n - 1]
    a, b = way(), way()[::-1]
    return P, [[w[i], w[i + 1]] for w in (a, b) for i in range(len(w) - 1)]


def tri2_region(rng, n=None, small=False):
    """small: coordinates whose fourth powers TLC can hold"""
    mode = rng.choice(["int", "int", "lev"])
    m = rng.choice([3, 4, 5, 7])
    if n:
        m = n // 4 if small else rng.choice([n // 4, n])
    else:
        n = rng.choice([3, 4, 5, 6, 8, 10, 12, 16])
    P, segs = flat(rng) if not small and n < 10 and rng.random() < 0.06 else region(rng, n, m)
    if not small:
        P, segs = affine2(rng, P, segs)
    pts = [[[x], [y]] for x, y in P]
    off = 0
    if mode == "lev":   # a shear by 2^30 keeps the region and makes slivers of everything
        s = rng.choice([1, -1, 2])
        if rng.random() < 0.5:
            pts = [[padd([x], lift(s * y, 1)), [y]] for x, y in P]
        else:
            pts = [[[x], padd([y], lift(s * x, 1))] for x, y in P]
    elif rng.random() < 0.2:
        off = 1 << 50
    # relabel
    perm = list(range(len(pts)))
    rng.shuffle(perm)
    out = [None] * len(pts)
    for i, p in enumerate(pts):
        out[perm[i]] = p
    segs = [[perm[a], perm[b]] for a, b in segs]
    rng.shuffle(segs)
    return dict(op="tri2", f="region", pts=out, segs=segs, k=30, s=rng.choice([0, 0, -30]), off=off)


def soup_case(rng, op="soup", many=None):
    nf = many or (1 if op == "tri3" else rng.randint(1, 4))
    pts, faces, axes = [], [], []
    lev = rng.random() < 0.25
    index = {}
    for _ in range(nf):
        n = rng.choice([3, 4, 5, 6, 9]) if not many else rng.choice([4, 6, 50])
        P, segs = flat(rng) if rng.random() < 0.08 else region(rng, n, rng.choice([3, 4]) if n < 50 else 12, keep=True)
        P, segs = affine2(rng, P, segs)
        while True:
            d1, d2 = rdir(rng, 2), rdir(rng, 2)
            if any(cross(d1, d2)):
                break
        o = [rng.randint(-3, 3) for _ in range(3)]
        ids = []
        for x, y in P:
            q = [[o[c] + x * d1[c] + y * d2[c]] for c in range(3)]
            key = tuple(v[0] for v in q)
            if key in index and rng.random() < 0.8:
                ids.append(index[key])
                continue
            index[key] = len(pts)
            ids.append(len(pts))
            pts.append(q)
        if len(set(ids)) != len(ids):
            return soup_case(rng, op, many)
        # axes: any integer basis (x, y) of the plane turning the same way as (d1, d2); x.d and y.d must be
        # the coordinates of a map that keeps the turn, so take x = a d1 + b d2 and y = n x x (orthogonal)
        nrm = cross(d1, d2)
        while True:
            a, b = rng.randint(-1, 1), rng.randint(-1, 1)
            if a or b:
                break
        x = [a * d1[c] + b * d2[c] for c in range(3)]
        y = list(cross(nrm, x))
        faces.append([[ids[i], ids[j]] for i, j in segs])
        axes.append([[[o[c] + rng.choice([0, 0, d1[c], -d2[c]])] for c in range(3)], x, y])
    # unused points in between
    if rng.random() < 0.3:
        pts.append([[9], [9], [9]])
    sc = rng.choice([0, 0, -20])
    if op == "tri3":
        return dict(op="tri3", f="polygon", pts=pts, segs=faces[0], axes=axes, k=30, s=sc, off=0)
    return dict(op="soup", f="soup", pts=pts, faces=faces, axes=axes, k=30, s=sc, off=0)


def lattice_sets(c, w, h):
    """every set of points of a lattice, from the specification, in random order and under affine maps"""
    out = []
    for S in c.generate("DivConq", f"SPECIFICATION GenSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS W = {w} H = {h} N = 1\n",
                        what=f"every set of points of the {w}x{h} lattice, replayed"):
        c.rng.shuffle(S)
        Q, _ = affine2(c.rng, [tuple(p) for p in S], [])
        out.append(dict(op="tri2", f="lattice", pts=[[[x], [y]] for x, y in Q], segs=[], k=30, s=0, off=0))
    return out


def c14(c):
    for w, h, n in c.scale([(3, 3, 7), (1, 1, 0)], [(3, 3, 7), (1, 1, 0), (3, 3, 8), (4, 3, 6), (5, 2, 7)]):
        c.model("DivConq", f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS W = {w} H = {h} N = {n}\nINVARIANTS Planar Complete EmptyCircles OneTangent\n",
                f"divide and conquer with any cuts, every set of {n} points of the {w}x{h} lattice" if n else "divide and conquer with any cuts, two sets of points in general position and on circles", timeout=1500)
    c.judge("TriTrace", c.execute(lattice_sets(c, 4, c.scale(3, 4))))
    c.judge("TriTrace", c.execute([tri2_delaunay(c.rng) for _ in range(c.scale(6000, 60000))]))
    c.judge("ManyTrace", evidence(c.execute([tri2_many(c.rng) for _ in range(c.scale(40, 400))])))
    return c.finish(assumptions=SCALE_NOTE + ["points are pairwise distinct"])


def polygons(c, names):
    """every simple polygon on the point sets, drawn by the specification, moved about by an affine map"""
    out = []
    for name in names:
        for P, sides in c.generate("PolyGen", f"SPECIFICATION PSpec\nCHECK_DEADLOCK FALSE\nCONSTANT P <- {name}\nCONSTANT Gen = 1\n",
                                   what=f"every simple polygon on the point set {name}, replayed"):
            perm = list(range(len(P)))
            c.rng.shuffle(perm)
            segs = [[perm[a - 1], perm[b - 1]] for a, b in sides]
            c.rng.shuffle(segs)
            Q, segs = affine2(c.rng, [tuple(p) for p in P], segs)
            pts = [None] * len(Q)
            for i, (x, y) in enumerate(Q):
                pts[perm[i]] = [[x], [y]]
            out.append(dict(op="tri2", f="polygon", pts=pts, segs=segs, k=30, s=0, off=0))
    return out


def insertion(c, names, starts):
    """the algorithm on every polygon, its segments in every order, the search from every triangle of the vertex"""
    for name in names:
        c.model("TriInsert", f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT P <- {name}\nCONSTANTS Gen = 0 AllStarts = {starts}\nINVARIANTS Linked Left Same Kept BestEdges Fills\n",
                f"segment insertion by flips, every simple polygon on the point set {name}, every order", timeout=1500)


def c15(c):
    insertion(c, c.scale(["Rows"], ["Rows", "Stars", "Grid33"]), 0)
    c.judge("TriTrace", c.execute(polygons(c, c.scale(["Grid33", "Comb"], ["Grid33", "Comb", "Grid43"]))))
    c.judge("TriTrace", c.execute([tri2_region(c.rng) for _ in range(c.scale(6000, 60000))]))
    c.judge("TriTrace", c.execute([tri2_region(c.rng, c.rng.choice([40, 80, 160])) for _ in range(c.scale(30, 300))]))
    return c.finish(assumptions=SCALE_NOTE + ["segments meet at ends or run through input points, each piece of boundary is given once and in one direction"])


def c27(c):
    insertion(c, c.scale(["Fan"], ["Fan", "Comb"]), 0)
    insertion(c, c.scale(["Grid42"], ["Grid42", "Grid33"]), 1)
    c.judge("TriTrace", evidence(c.execute(polygons(c, c.scale(["Fan", "Stars", "Rows", "Grid42"], ["Fan", "Stars", "Rows", "Grid33", "Comb", "Grid43"])))))
    c.judge("TriTrace", evidence(c.execute([tri2_region(c.rng) for _ in range(c.scale(5000, 50000))])))
    c.judge("TriTrace", evidence(c.execute([tri2_region(c.rng, c.rng.choice([40, 80, 160]), True) for _ in range(c.scale(40, 400))])))
    return c.finish(assumptions=SCALE_NOTE + ["segments meet at ends or run through input points, each piece of boundary is given once and in one direction"])


def c16(c):
    c.judge("TriTrace", c.execute([soup_case(c.rng, c.rng.choice(["soup", "soup", "soup", "tri3"])) for _ in range(c.scale(6000, 60000))]))
    c.judge("TriTrace", c.execute([soup_case(c.rng, "soup", c.rng.choice([8, 20])) for _ in range(c.scale(20, 200))]))
    return c.finish(assumptions=["integer points and integer plane axes, so the projection is exact"])


TABLE = dict(C14=c14, C15=c15, C16=c16, C27=c27)
