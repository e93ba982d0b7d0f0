"""C07/C08 explicit predicates, C09/C10 implicit points, C11 classification, C12 expansions, C13 intervals."""
import itertools

from fullgen import imp_full_cases, imp_shared_cases, pred_full

NP = {"orient2d": (3, 2), "orient3d": (4, 3), "orient3d_fast": (4, 3), "incircle": (4, 2), "insphere": (5, 3), "orient4d": (5, 4)}


def padd(a, b):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)]


def pscale(a, c):
    return [x * c for x in a]


def vadd(u, v):
    return [padd(a, b) for a, b in zip(u, v)]


def vscale(u, c):
    return [pscale(a, c) for a in u]


def lift(c, lev):
    return [0] * lev + [c]


def degenerate_base(rng, f, lo, hi):
    """integer points on which f vanishes (or nearly always does)"""
    n, d = NP[f]
    R = lambda: [rng.randint(lo, hi) for _ in range(d)]
    if f in ("orient2d", "orient3d", "orient3d_fast", "orient4d"):
        base = [R() for _ in range(n - 1)]
        # affine combination of the others with small integer weights summing to 1
        w = [rng.randint(-1, 2) for _ in range(n - 1)]
        w[rng.randrange(n - 1)] += 1 - sum(w)
        last = [sum(w[i] * base[i][j] for i in range(n - 1)) for j in range(d)]
        pts = base + [last]
        rng.shuffle(pts)
        return pts
    # points on a common sphere: sign changes and permutations of one vector around a centre
    v = [rng.randint(0, 2) for _ in range(d)]
    c = [rng.randint(lo, hi) for _ in range(d)]
    pts = []
    for _ in range(n):
        p = v[:]
        rng.shuffle(p)
        pts.append([c[i] + rng.choice([-1, 1]) * p[i] for i in range(d)])
    return pts


def pred_case(rng, f, mode):
    n, d = NP[f]
    small = f in ("insphere", "orient4d")
    if mode == "int":
        m = {"insphere": 4, "incircle": 12, "orient4d": 12, "orient3d": 60, "orient3d_fast": 60, "orient2d": 1000}[f]
        m = rng.choice([1, 2, m])
        pts = [[[rng.randint(-m, m)] for _ in range(d)] for _ in range(n)]
        if rng.random() < 0.5:
            pts = [[[x] for x in p] for p in degenerate_base(rng, f, -min(m, 5), min(m, 5))]
        return dict(pts=pts, k=30, s=rng.choice([0, 0, -40, 17]), off=0)
    if mode == "off":  # exact differences, huge common offset
        m = rng.choice([1, 2, 4])
        pts = [[[rng.randint(-m, m)] for _ in range(d)] for _ in range(n)]
        if rng.random() < 0.5:
            pts = [[[x] for x in p] for p in degenerate_base(rng, f, -m, m)]
            if rng.random() < 0.5:
                p = rng.choice(pts)
                p[rng.randrange(d)][0] += rng.choice([-1, 1])
        return dict(pts=pts, k=30, s=rng.choice([0, -52, -30]), off=rng.choice([1 << 50, (1 << 52) + 12345, -(1 << 51), 1 << 40]))
    # mode "lev": coordinates over several magnitudes, leading part degenerate half the time
    k = 30
    top = rng.choice([1, 1, 2])
    m = 1 if small else 2
    if rng.random() < 0.7:
        hi = degenerate_base(rng, f, -m, m)
    else:
        hi = [[rng.randint(-m, m) for _ in range(d)] for _ in range(n)]
    dens = rng.choice([0.15, 0.5, 0.9])
    pts = []
    for p in hi:
        q = []
        for x in p:
            lv = rng.randint(max(0, top - 1), top) if rng.random() < 0.3 else top
            co = [0] * (lv + 1)
            co[lv] = x
            if lv > 0 and rng.random() < dens:
                co[lv - 1] = rng.randint(-m, m)
            q.append(co)
        pts.append(q)
    # some coordinates live entirely in the lowest level
    if rng.random() < 0.4:
        for p in pts:
            for i in range(d):
                if rng.random() < 0.3:
                    p[i] = [rng.randint(-m, m)]
    return dict(pts=pts, k=k, s=rng.choice([0, 0, -60]), off=0)


def mlev(rng, tops, m=2, dens=0.5):
    """a number occupying one level or two neighbouring ones"""
    lv = rng.choice(tops)
    co = [0] * (lv + 1)
    co[lv] = rng.randint(-m, m)
    if lv and rng.random() < dens:
        co[lv - 1] = rng.randint(-m, m)
    return co


def fits(co, k):
    """a level number that is a double"""
    v = abs(val(co, k))
    return v == 0 or (v >> ((v & -v).bit_length() - 1)).bit_length() <= 53


def val(co, k=30):
    return sum(c << (k * i) for i, c in enumerate(co))


def combo(rng, vecs, k, tops, m):
    """a combination of vectors with level numbers as weights whose coordinates are doubles"""
    d = len(vecs[0])
    for _ in range(200):
        lv = rng.choice(tops)
        tt = [x for x in tops if abs(x - lv) <= 1] if rng.random() < 0.8 else tops
        w = [mlev(rng, tt, m) for _ in vecs]
        p = [[0] for _ in range(d)]
        for wi, u in zip(w, vecs):
            p = vadd(p, [pscale(wi, u[j]) for j in range(d)])
        if all(fits(c, k) for c in p):
            return p
    return [[0] for _ in range(d)]


def flat_case(rng, f):
    """exactly degenerate points (on a line, plane, hyperplane, circle, sphere) whose coordinates span so many
    magnitudes that their differences are no doubles; half the time one coordinate is then moved by the least amount"""
    n, d = NP[f]
    k = rng.choice([30, 30, 22, 45])
    tops = rng.choice([[0, 1, 2], [0, 2], [0, 1], [1, 2], [0, 3] if f not in ("insphere", "orient4d", "incircle") else [0, 2]])
    if k == 45 and max(tops) > 2:
        tops = [0, 2]
    m = rng.choice([1, 2, 3]) if f in ("orient2d", "orient3d") else rng.choice([1, 2])
    if f in ("orient2d", "orient3d", "orient4d"):
        vecs = [[rng.randint(-2, 2) for _ in range(d)] for _ in range(d - 1)]
        pts = [combo(rng, vecs, k, tops, m) for _ in range(n)]
    else:
        def trap(a, b, c, e):
            return rng.choice([
                [[a, b], [pscale(a, -1), b], [c, e], [pscale(c, -1), e]],
                [[a, b], [a, pscale(b, -1)], [c, e], [c, pscale(e, -1)]],
                [[a, b], [b, a], [c, e], [e, c]],
                [[a, b], [pscale(a, -1), pscale(b, -1)], [b, pscale(a, -1)], [pscale(b, -1), a]],
            ])
        pts = trap(*[mlev(rng, tops, m) for _ in range(4)])
        if f == "insphere":
            z = mlev(rng, tops, m)
            a = rng.randrange(3)
            pts = [p[:a] + [z] + p[a:] for p in pts] + [[mlev(rng, tops, m) for _ in range(3)]]
        if rng.random() < 0.2:
            pts[rng.randrange(n)] = [mlev(rng, tops, m) for _ in range(d)]
    rng.shuffle(pts)
    if rng.random() < 0.5:
        for _ in range(20):
            i, j, l = rng.randrange(n), rng.randrange(d), rng.randint(0, max(tops))
            c = padd(pts[i][j], lift(rng.choice([-1, 1]), l))
            if fits(c, k):
                pts[i][j] = c
                break
    return dict(pts=pts, k=k if k <= 30 else 29, s=rng.choice([0, 0, -60]), off=0) if k <= 30 else dict(pts=[[spread(c) for c in p] for p in pts], k=15, s=rng.choice([0, -60]), off=0)


def spread(co):
    """levels of 2^45 written in levels of 2^15"""
    out = [0] * (3 * len(co) - 2)
    for i, c in enumerate(co):
        out[3 * i] = c
    return out


def pred_cases(rng, fs, count):
    out = []
    for i in range(count):
        f = fs[i % len(fs)]
        mode = rng.choice(["int", "off", "lev", "lev", "flat", "flat", "flat"])
        if f == "orient3d_fast":
            mode = "int"
        c = flat_case(rng, f) if mode == "flat" else pred_case(rng, f, mode)
        c.update(op="pred", f=f, mode=mode)
        out.append(c)
    return out


# ------------------------------------------------------------------ implicit points
DIRS = [d for d in itertools.product((-1, 0, 1), repeat=3) if any(d)]


def det3(a, b, c):
    return (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]))


def cross(u, v):
    return (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])


def rdir(rng, m):
    while True:
        d = tuple(rng.randint(-m, m) for _ in range(3))
        if any(d):
            return d


def plane(rng, P, m, levs):
    """three points of a plane through P (P itself usually not among them)"""
    while True:
        d1, d2 = rdir(rng, m), rdir(rng, m)
        if any(cross(d1, d2)):
            break
    l1, l2 = rng.choice(levs), rng.choice(levs)
    while True:
        w = [(rng.randint(-2, 2), rng.randint(-2, 2)) for _ in range(3)]
        a = (w[1][0] - w[0][0]) * (w[2][1] - w[0][1]) - (w[1][1] - w[0][1]) * (w[2][0] - w[0][0])
        if a:
            break
    pts = []
    for i, j in w:
        q = [padd(P[c], padd(lift(i * d1[c], l1), lift(j * d2[c], l2))) for c in range(3)]
        pts.append(q)
    return cross(d1, d2), pts


def represent(rng, P, t, m, levs, degenerate=False):
    if t == "E":
        return dict(t="E", v=P, p=[P])
    while True:
        if t == "L":
            n, pl = plane(rng, P, m, levs)
            d = rdir(rng, m)
            dd = sum(a * b for a, b in zip(d, n))
            if (dd == 0) != degenerate:
                continue
            lv = rng.choice(levs)
            while True:
                a, b = rng.randint(-2, 2), rng.randint(-2, 2)
                if a != b:
                    break
            line = [[padd(P[c], lift(x * d[c], lv)) for c in range(3)] for x in (a, b)]
            return dict(t="L", v=P, p=line + pl)
        ns, ps = [], []
        for _ in range(3):
            n, pl = plane(rng, P, m, levs)
            ns.append(n)
            ps += pl
        if (det3(*ns) == 0) != degenerate:
            continue
        return dict(t="T", v=P, p=ps)


FN = {"o3": 4, "o2xy": 3, "o2yz": 3, "o2zx": 3, "o2ax": 3, "ltx": 2, "lty": 2, "ltz": 2, "inseg": 3, "expl": 1}


def imp_points(rng, f, mode):
    n = FN[f]
    m = rng.choice([1, 2, 4])
    if f == "inseg":
        a = [[rng.randint(-m, m)] for _ in range(3)]
        d = rdir(rng, 2)
        V = [[padd(a[c], [x * d[c]]) for c in range(3)] for x in (rng.randint(-2, 2), rng.randint(-2, 2), rng.randint(-2, 2))]
        if rng.random() < 0.1:
            V[1] = V[2] = V[0]
        if V[1] == V[2] and V[0] != V[1]:
            V[0] = V[1]
        base = V
    else:
        if n >= 3 and rng.random() < 0.6:
            if f == "o3" or True:
                fn = "orient3d"
            bs = degenerate_base(rng, "orient3d", -m, m)
            base = [[[x] for x in p] for p in bs[:n]]
            if n == 3 and rng.random() < 0.7:
                # collinear in space, hence in every projection
                a, d = bs[0], rdir(rng, 2)
                base = [[[a[c] + x * d[c]] for c in range(3)] for x in (rng.randint(-2, 2), rng.randint(-2, 2), rng.randint(-2, 2))]
        else:
            base = [[[rng.randint(-m, m)] for _ in range(3)] for _ in range(n)]
            if n == 2 and rng.random() < 0.5:
                base[1] = [list(x) for x in base[0]]
    if mode == "int":
        return base, [0], 30, 0
    k = rng.choice([12, 16, 20])
    base = [[lift(x[0], 1) for x in p] for p in base]
    if f != "inseg":
        for p in base:
            for c in range(3):
                if rng.random() < 0.35:
                    p[c] = padd(p[c], [rng.choice([-1, 1])])
    levs = rng.choice([[0], [1], [0, 1]])
    return base, levs, k, 0


def imp_case(rng, f, kinds=None, mode=None, degenerate=0.0):
    mode = mode or rng.choice(["int", "lev", "lev"])
    V, levs, k, _ = imp_points(rng, f, mode)
    n = FN[f]
    kinds = kinds or [rng.choice("ELT") for _ in range(n)]
    dm = rng.choice([1, 2])
    pts = []
    for P, t in zip(V, kinds):
        pts.append(represent(rng, P, t, dm, levs, degenerate=(t != "E" and rng.random() < degenerate)))
    c = dict(op="imp", f=f, pts=pts, k=k, s=rng.choice([0, 0, -k]), off=0, mode=mode)
    if f == "o2ax":
        c["axis"] = rng.randint(0, 2)
    return c


def imp_cases(rng, fs, per_dispatch, degenerate=0.0):
    out = []
    for f in fs:
        combos = list(itertools.product("ELT", repeat=FN[f]))
        for kinds in combos:
            for _ in range(per_dispatch if f != "o3" else max(1, per_dispatch)):
                out.append(imp_case(rng, f, kinds, degenerate=degenerate))
    return out


# ------------------------------------------------------------------ checks
SCALE_NOTE = ["coordinates are sums of small multiples of powers of two over up to three magnitudes 2^30 apart, or small integers at offsets to 2^52, scaled by powers of two, or nearly degenerate with full mantissas; no overflow or underflow"]


def c07(c):
    c.judge("PredTrace", c.execute(pred_cases(c.rng, ["orient2d", "orient3d", "orient2d", "orient3d", "orient3d_fast"], c.scale(50000, 600000))))
    c.judge("BigTrace", c.execute(pred_full(c.rng, ["orient2d", "orient3d"], c.scale(4000, 40000))))
    return c.finish(assumptions=SCALE_NOTE)


def c08(c):
    c.judge("PredTrace", c.execute(pred_cases(c.rng, ["incircle", "insphere", "orient4d"], c.scale(40000, 400000))))
    c.judge("BigTrace", c.execute(pred_full(c.rng, ["incircle", "insphere", "orient4d"], c.scale(4000, 40000))))
    return c.finish(assumptions=SCALE_NOTE)


def c09(c):
    c.judge("ImpTrace", c.execute(imp_cases(c.rng, ["o3"], c.scale(80, 800), 0.04) + imp_cases(c.rng, ["o2xy", "o2yz", "o2zx", "o2ax"], c.scale(80, 800), 0.04)))
    c.judge("BigTrace", c.execute(imp_full_cases(c.rng, ["o3"], c.scale(7, 60)) + imp_full_cases(c.rng, ["o2xy", "o2yz", "o2zx"], c.scale(8, 80))
                              + imp_shared_cases(c.rng, ["o3"], c.scale(5, 50)) + imp_shared_cases(c.rng, ["o2xy", "o2yz", "o2zx"], c.scale(8, 80))))
    return c.finish(assumptions=SCALE_NOTE)


def c10(c):
    c.judge("ImpTrace", c.execute(imp_cases(c.rng, ["ltx", "lty", "ltz"], c.scale(500, 4000), 0.04) + imp_cases(c.rng, ["inseg"], c.scale(150, 1500)) + imp_cases(c.rng, ["expl"], c.scale(1000, 10000))))
    c.judge("BigTrace", c.execute(imp_full_cases(c.rng, ["ltx", "lty", "ltz"], c.scale(50, 500)) + imp_shared_cases(c.rng, ["ltx", "lty", "ltz"], c.scale(30, 300))))
    return c.finish(assumptions=SCALE_NOTE)


TABLE = dict(C07=c07, C08=c08, C09=c09, C10=c10)
