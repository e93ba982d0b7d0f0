"""C17 tetrahedralization, C18 its navigation."""
from props_pred import padd, lift, rdir, cross, det3, SCALE_NOTE
from props_tri import val


def coplanar(V):
    n = len(V)
    if n < 4:
        return True
    d = [[x[i] - V[0][i] for i in range(3)] for x in V[1:]]
    u = next((x for x in d if any(x)), None)
    if u is None:
        return True
    w = next((x for x in d if any(cross(u, x))), None)
    if w is None:
        return True
    return all(det3(u, w, x) == 0 for x in d)


def repeated(rng, pts):
    """some points given more than once"""
    pts = pts + [rng.choice(pts) for _ in range(rng.choice([1, 1, 2, 3, 12]))]
    rng.shuffle(pts)
    return pts


def tet_points(rng, nav=False, rough=False):
    while True:
        mode = rng.choice(["int", "int", "int", "lev", "lev", "mid"])
        k = 30
        if mode == "mid":
            n, m = rng.randint(10, 14 if nav else 22), rng.choice([3, 4, 8])
        else:
            n, m = rng.choice([4, 5, 5, 6, 7, 8, 9, 10]), rng.choice([2, 2, 3, 4])
        cells = [(x, y, z) for x in range(m) for y in range(m) for z in range(m)]
        t = rng.random()
        if t < 0.15:     # mostly in one plane
            cells = [(x, y, 0) for x in range(4) for y in range(4)] + [(1, 1, 1), (2, 1, -1)]
        elif t < 0.25:   # a sphere and its centre
            cells = [(a, b, c) for a in range(-3, 4) for b in range(-3, 4) for c in range(-3, 4) if a * a + b * b + c * c in (9, 0)]
        elif t < 0.3:    # cube corners with face and body centres
            cells = [(2 * a, 2 * b, 2 * c) for a in (0, 1) for b in (0, 1) for c in (0, 1)] + [(1, 1, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 2)]
        P = rng.sample(cells, min(n, len(cells)))
        pts = [[[x] for x in p] for p in P]
        off = 0
        if mode == "lev":
            k = rng.choice([18, 20, 30])
            if k < 30:
                P = [[min(x, 2) for x in p] for p in P]
            flat = rng.random() < 0.3
            pts = []
            for p in P:
                q = [lift(x, 1) for x in p]
                for c in range(3):
                    if rng.random() < 0.3:
                        q[c] = padd(q[c], [rng.randint(-1, 1)])
                if flat and k == 30:
                    pass
                pts.append(q)
            if rng.random() < 0.6:
                a = rng.choice(pts)
                pts.append([padd(a[c], [rng.randint(-1, 1)]) for c in range(3)])
        elif rng.random() < 0.2:
            off = rng.choice([1 << 50, -(1 << 49) + 3])
        V = [tuple(val(x, k) for x in p) for p in pts]
        keep = [i for i in range(len(V)) if V[i] not in V[:i]]
        pts = [pts[i] for i in keep]
        V = [V[i] for i in keep]
        if rough and rng.random() < 0.03:      # on a plane, on a line, one point, none
            u = [[rng.randint(-2, 2) for _ in range(3)] for _ in range(3)]
            m = rng.choice([0, 1, 2, 2])
            pts = [[[u[0][i] + sum(a[j] * u[j + 1][i] for j in range(m))] for i in range(3)] for a in [[rng.randint(-3, 3), rng.randint(-3, 3)] for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 9, 80]))]]
            k, off = 30, 0
        elif coplanar(V):
            continue
        elif rough and rng.random() < 0.1:
            pts = repeated(rng, pts)
        return dict(op="tet", f="tet", pts=pts, nav=0, k=k, s=rng.choice([0, 0, -30]), off=off)


def sphere_case(N, keep, extra, rng):
    """lattice points of one sphere: when a point near the centre comes late its cavity is everything"""
    m = int(N ** 0.5) + 1
    cells = [(x, y, z) for x in range(-m, m + 1) for y in range(-m, m + 1) for z in range(-m, m + 1) if x * x + y * y + z * z == N]
    P = [p for p in cells if rng.random() < keep] + extra
    return dict(op="tet", f="big", pts=[[[x] for x in p] for p in dict.fromkeys(P)], nav=0, k=30, s=0, off=0)


def big_cases(c):
    """more than a thousand points, so that the branch for very large cavities is taken"""
    out = []
    for i in range(c.scale(12, 60)):
        extra = [[(0, 0, 0)], [(0, 0, 0), (1, 0, 2), (-20, 3, 5), (2, 30, -7), (4, -11, 9), (12, 14, -50)], [(3, 1, 0), (0, 0, 127), (1, 3, 0), (0, 9, 9)]][i % 3]
        out.append(sphere_case([8774, 9974, 8774, 9686][i % 4], c.rng.choice([1, 0.95]), extra, c.rng))
    return out


def insertion(c):
    """the algorithm on configurations full of ties, every order of insertion"""
    for P in c.scale(["Centred", "Flat", "Octa"], ["Cube", "Centred", "Flat", "Octa", "Lattice", "Big"]):
        c.model("TetInsert", f"SPECIFICATION Spec\nCONSTANT P <- {P}\nINVARIANTS TypeOk Solid Closed Hull EmptySpheres AllUsed ByDefinition Placeable\nPROPERTY Finishes\nCHECK_DEADLOCK FALSE\n",
                f"incremental insertion of the point set {P} in every order")


def many_ties(rng):
    """many points on few spheres: whole lattices, prisms, spheres with their centres"""
    t = rng.random()
    if t < 0.4:
        d = [rng.randint(1, 5) for _ in range(3)]
        cells = [(x, y, z) for x in range(d[0] + 1) for y in range(d[1] + 1) for z in range(d[2] + 1)]
    elif t < 0.7:
        N = rng.choice([9, 14, 26, 29, 41])
        m = int(N ** 0.5) + 1
        cells = [(x, y, z) for x in range(-m, m + 1) for y in range(-m, m + 1) for z in range(-m, m + 1) if x * x + y * y + z * z in (N, 0, N // 3)]
    else:
        ring = rng.choice([[(5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0), (-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3)], [(1, 0), (0, 1), (-1, 0), (0, -1)]])
        cells = [(x, y, z) for x, y in ring for z in range(rng.randint(2, 4))]
    P = [p for p in cells if rng.random() < rng.choice([1, 0.9, 0.5])]
    rng.shuffle(P)
    if coplanar([list(p) for p in P]):
        return many_ties(rng)
    return dict(op="tet", f="tet", pts=[[[x] for x in p] for p in P], nav=0, k=30, s=rng.choice([0, 0, -30]), off=0)


def c17(c):
    insertion(c)
    reqs = []
    for _ in range(c.scale(4000, 40000)):
        r = tet_points(c.rng, rough=True)
        reqs += [dict(r), dict(r)]          # the insertion order is drawn anew on every call
    c.judge("TetTrace", c.execute(reqs + big_cases(c)), 'CONSTANT What = "shape"\n')
    return c.finish(assumptions=SCALE_NOTE + ["of points given several times any one may be used"])


def c18(c):
    reqs = []
    for _ in range(c.scale(1500, 15000)):
        r = tet_points(c.rng, nav=True, rough=True)
        r["nav"] = 1
        reqs.append(r)
    c.judge("TetTrace", c.execute(reqs), 'CONSTANT What = "nav"\n')
    return c.finish(assumptions=SCALE_NOTE + ["of points given several times any one may be used"])


def c26(c):
    insertion(c)
    reqs = []
    for _ in range(c.scale(5000, 50000)):
        r = tet_points(c.rng) if c.rng.random() < 0.7 else many_ties(c.rng)
        r.update(op="again", times=c.rng.choice([2, 4, 8]))
        reqs.append(r)
    c.judge("TetTrace", c.execute(reqs), 'CONSTANT What = "again"\n')
    return c.finish(assumptions=SCALE_NOTE + ["points are pairwise distinct and not all coplanar"])


TABLE = dict(C17=c17, C18=c18, C26=c26)
