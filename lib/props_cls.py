"""C11 position tests, C25 projection axis, C12 expansions, C13 intervals."""
from props_pred import padd, lift, rdir, cross, det3, SCALE_NOTE

ARITY = dict(same_point=2, mis_alignment=3, same_half_plane=4, point_in_inner_segment=3, point_in_segment=3,
             point_in_inner_triangle=4, point_in_triangle=4, inner_segments_cross=4,
             inner_segment_cross_inner_triangle=5, inner_segment_cross_triangle=5)
PLANAR = ("same_half_plane", "point_in_inner_triangle", "point_in_triangle")


def frame(rng, lev):
    """origin and three independent directions; with lev the directions are tilted one level down"""
    while True:
        ds = [rdir(rng, 1 if rng.random() < 0.6 else 2) for _ in range(3)]
        if det3(*ds):
            break
    out = []
    for d in ds:
        v = [lift(x, lev) for x in d]
        if lev and rng.random() < 0.5:
            v = [padd(x, [rng.choice([-1, 0, 1])]) for x in v]
        out.append(v)
    o = [lift(rng.randint(-1, 1), lev) for _ in range(3)]
    return o, out


def comb(o, ds, w):
    p = [list(x) for x in o]
    for d, c in zip(ds, w):
        for i in range(3):
            p[i] = padd(p[i], [c * x for x in d[i]])
    return p


def cls_case(rng, f):
    n = ARITY[f]
    lev = rng.choice([0, 0, 1])
    o, ds = frame(rng, lev)
    m = rng.choice([1, 2, 3])
    R = lambda: (rng.randint(0, m), rng.randint(0, m))
    flat = f in PLANAR or rng.random() < 0.6
    W = [list(R()) + [0] for _ in range(n)]
    if "triangle" in f and f.startswith("point"):
        while True:
            W[1:] = [list(R()) + [0] for _ in range(3)]
            if (W[2][0] - W[1][0]) * (W[3][1] - W[1][1]) != (W[2][1] - W[1][1]) * (W[3][0] - W[1][0]):
                break
    if "cross" in f and "triangle" in f:
        while True:
            W[2:] = [list(R()) + [0] for _ in range(3)]
            if (W[3][0] - W[2][0]) * (W[4][1] - W[2][1]) != (W[3][1] - W[2][1]) * (W[4][0] - W[2][0]):
                break
        if rng.random() < 0.8:
            # ends above and below a lattice point of the plane (possibly touching it), slanted or not
            c, s = R(), (rng.randint(-1, 1), rng.randint(-1, 1))
            a, b = rng.choice([(1, 1), (1, 1), (1, 2), (2, 1), (0, 1), (1, 0), (-1, 2), (1, -2)])
            W[0] = [c[0] + a * s[0], c[1] + a * s[1], a]
            W[1] = [c[0] - b * s[0], c[1] - b * s[1], -b]
    elif not flat:
        W = [w[:2] + [rng.randint(0, m)] for w in W]
    if not f.startswith("point_in_inner_t") and f != "point_in_triangle" and "triangle" not in f and rng.random() < 0.3:
        # collinear: everything on one direction
        W = [[rng.randint(0, m), 0, 0] for _ in W]
    if n >= 2 and rng.random() < 0.1 and "triangle" not in f:
        i, j = rng.sample(range(n), 2)
        W[i] = W[j]
    pts = [comb(o, ds, w) for w in W]
    # knock one end off by the least amount (where the precondition allows)
    if lev and not f in PLANAR and rng.random() < 0.3:
        i = rng.randrange(n)
        pts[i][rng.randrange(3)] = padd(pts[i][rng.randrange(3)], [0]) if False else pts[i][rng.randrange(3)]
        c = rng.randrange(3)
        pts[i][c] = padd(pts[i][c], [rng.choice([-1, 1])])
    off = 0
    if not lev and rng.random() < 0.2:
        off = rng.choice([1 << 50, -(1 << 49) + 7])
    return dict(op="cls", f=f, pts=pts, k=30, s=rng.choice([0, 0, -30, 20]), off=off)


def cls_cases(rng, count):
    fs = list(ARITY)
    w = [1, 3, 4, 3, 3, 5, 4, 5, 6, 6]
    return [cls_case(rng, f) for f in rng.choices(fs, weights=w, k=count)]


def axis_case(rng):
    mode = rng.choice(["int", "int", "lev", "lev"])
    if mode == "int":
        m = rng.choice([1, 2, 4, 30])
        pts = [[[rng.randint(-m, m)] for _ in range(3)] for _ in range(3)]
        if rng.random() < 0.4:  # a plane with equal or one zero component
            o, ds = frame(rng, 0)
            pts = [comb(o, ds[:2], (rng.randint(-2, 2), rng.randint(-2, 2))) for _ in range(3)]
        return dict(op="axis", f="axis", mode=mode, pts=pts, k=30, s=rng.choice([0, -40, 40]), off=rng.choice([0, 0, 0, 1 << 50]))
    # nearly collinear: the normal is what is left one or two levels down
    lv = rng.choice([1, 1, 1, 2])
    d = rdir(rng, 2)
    a = [rng.randint(-2, 2) for _ in range(3)]
    pts = []
    for x in (0, rng.choice([1, 2]), rng.choice([-1, 3])):
        p = []
        for i in range(3):
            c = a[i] + x * d[i]
            co = lift(c, lv) if c else [0]
            if lv == 1 or c == 0:
                co = padd(co, [rng.choice([-1, 0, 0, 1, 2])])
            elif rng.random() < 0.5:
                co = padd(co, lift(rng.choice([-1, 1]), 1))
            p.append(co)
        pts.append(p)
    rng.shuffle(pts)
    return dict(op="axis", f="axis", mode="lev", pts=pts, k=30, s=rng.choice([0, -60]), off=0)


# ------------------------------------------------------------------ expansions
def rmant(rng):
    w = rng.choice([1, 1, 2, 5, 20, 52, 53, 53])
    t = rng.random()
    if t < 0.3:
        m = (1 << w) - 1                      # all ones
    elif t < 0.5:
        m = 1 << (w - 1)
    else:
        m = rng.getrandbits(w) | 1 | (1 << (w - 1))
    return m


def expansion(rng, maxn, lo=-150):
    """non-adjacent components of increasing magnitude, as [mantissa, exponent]"""
    n = rng.randint(1, maxn)
    if rng.random() < 0.06:
        return [["0", 0]]
    e = lo + rng.choice([0, 0, 5, 40, 100])
    out = []
    for _ in range(n):
        m = rmant(rng)
        s = rng.choice([-1, 1])
        out.append([str(s * m), e])
        e += m.bit_length() + rng.choice([1, 1, 1, 2, 7, 30])
    return out


def related(rng, a):
    """a second operand that cancels much of the first"""
    b = []
    for m, e in a:
        t = rng.random()
        if t < 0.6:
            b.append([str(-int(m)), e])
        elif t < 0.75 and int(m):
            b.append([str(rng.choice([-1, 1])), e])
    return b or [["1", a[0][1]]]


EXPF = ["grow", "growz", "sum", "fsum", "fdiff", "scale", "mul", "invert", "opadd", "opsub", "opmul", "opneg"]


def exp_case(rng, f):
    prod = f in ("mul", "opmul")
    big = rng.choice([1, 2, 3, 4, 6]) if prod else 6
    lo = -120 if prod else -150
    a = expansion(rng, big, lo)
    if f in ("grow", "growz", "scale"):
        b = expansion(rng, 1)
        if rng.random() < 0.5:
            m, e = rng.choice(a)
            b = [[str(-int(m)), e]]
        elif rng.random() < 0.3:
            b = [[str(rng.choice([-1, 1]) * rmant(rng)), a[-1][1]]]
    elif rng.random() < 0.4:
        b = related(rng, a)
    else:
        b = expansion(rng, rng.choice([1, 2, 3, 4, 6]) if prod else 6, lo)
    return dict(op="exp", f=f, a=a, b=b, base=-160)


def exp_cases(rng, n):
    return [exp_case(rng, EXPF[i % len(EXPF)]) for i in range(n)]


# ------------------------------------------------------------------ intervals
def iv_leaf(rng, lev, m):
    def num():
        if lev and rng.random() < 0.6:
            return padd(lift(rng.randint(-2, 2), 1), [rng.randint(-2, 2)])
        return [rng.randint(-m, m)]
    from props_pred import padd as _p
    key = lambda x: sum(c << (30 * i) for i, c in enumerate(x))
    if rng.random() < 0.3:
        return ["f", num()]
    a, b = num(), num()
    if key(a) > key(b):
        a, b = b, a
    return ["n", a, b]


def iv_tree(rng, d, lev, m):
    if d == 0 or rng.random() < 0.1:
        return iv_leaf(rng, lev, m)
    o = rng.choice(["+", "-", "*", "*", "*", "neg"])
    if o == "neg":
        return ["neg", iv_tree(rng, d - 1, lev, m)]
    return [o, iv_tree(rng, d - 1, lev, m), iv_tree(rng, d - 1, lev, m)]


def iv_range(e):
    V = lambda x: sum(c << (30 * i) for i, c in enumerate(x))
    if e[0] in "nf":
        return V(e[1]), V(e[-1])
    a = iv_range(e[1])
    if e[0] == "neg":
        return -a[1], -a[0]
    b = iv_range(e[2])
    if e[0] == "+":
        return a[0] + b[0], a[1] + b[1]
    if e[0] == "-":
        return a[0] - b[1], a[1] - b[0]
    s = [x * y for x in a for y in b]
    return min(s), max(s)


def iv_case(rng, e, mode):
    probes = []
    lo, hi = iv_range(e)
    if mode == "int":
        for v in (lo, hi, lo - 1, hi + 1, (lo + hi) // 2):
            if abs(v) < 1 << 30:
                probes.append([v])
    else:
        for _ in range(2):
            probes.append(padd(lift(rng.randint(-2, 2), 1), [rng.randint(-3, 3)]))
        for v in (lo, hi):     # the ends themselves when they are numbers of the model
            q, r = divmod(v + (1 << 29), 1 << 30)
            r -= 1 << 29
            if abs(q) < 4000 and abs(r) < 4000:
                probes.append([r, q])
                if q == 0:
                    probes += [[r - 1], [r + 1]]
    return dict(op="iv", f="iv", e=e, probes=probes, mode=mode, k=30, s=0, off=0)


def iv_cancel(rng):
    """sums and differences in which great terms cancel, so that what rounding lost decides the sign"""
    terms = []
    for _ in range(rng.choice([1, 1, 2])):
        lv = rng.choice([1, 2, 2])
        v = [0] * lv + [rng.choice([-3, -1, 1, 2])]
        if rng.random() < 0.3:     # spread over an interval, the other side a number
            w = v[:]
            w[-1] += 1
            terms += [(1, ["n", v, w]), (-1, ["f", rng.choice([v, w])])]
        else:
            k = lambda: ["f", v] if rng.random() < 0.5 else ["n", v, v]
            terms += [(1, k()), (-1, k())]
    for _ in range(rng.choice([1, 1, 2])):
        a = rng.randint(-3, 3)
        terms.append((rng.choice([1, -1]), ["f", [a]] if rng.random() < 0.6 else ["n", [a], [a + rng.randint(0, 2)]]))
    if rng.random() < 0.3:
        a = [rng.randint(-3, 3), rng.randint(-2, 2)]
        terms.append((1, ["*", ["f", a], ["f", [rng.choice([1, 2, -1])]]]))
    rng.shuffle(terms)

    def tree(ts):
        if len(ts) == 1:
            s, e = ts[0]
            return e if s > 0 else ["neg", e]
        i = rng.randint(1, len(ts) - 1) if rng.random() < 0.3 else len(ts) - 1
        a = tree(ts[:i])
        if i == len(ts) - 1:
            s, e = ts[i]
            return ["-" if s < 0 else "+", a, e]
        if rng.random() < 0.5:
            return ["-", a, tree([(-s, e) for s, e in ts[i:]])]
        return ["+", a, tree(ts[i:])]
    return tree(terms)


def iv_cases(rng, n):
    out = []
    while len(out) < n:
        if rng.random() < 0.15:
            out.append(iv_case(rng, iv_cancel(rng), "lev"))
            continue
        mode = rng.choice(["int", "lev"])
        e = iv_tree(rng, rng.choice([1, 1, 2, 2, 3]), mode == "lev", rng.choice([2, 5, 30]))
        if mode == "int" and max(map(abs, iv_range(e))) >= 1 << 30:
            continue
        if mode == "lev" and depth_of_products(e) > 3:
            continue
        out.append(iv_case(rng, e, mode))
    return out


def depth_of_products(e):
    if e[0] in "nf":
        return 0
    if e[0] == "neg":
        return depth_of_products(e[1])
    a, b = depth_of_products(e[1]), depth_of_products(e[2])
    return a + b + 1 if e[0] == "*" else max(a, b)


def c12(c):
    reqs = exp_cases(c.rng, c.scale(12000, 100000))
    recs = [dict(op="exp", f=r["f"], a=r["a"], b=r["b"], base=r["base"], obs=r["obs"]) for r in c.execute(reqs)]
    c.judge("ExpTrace", recs)
    return c.finish(assumptions=["components carry up to 53 bits, sit between 2^-160 and 2^260 and are non-adjacent (as every operation here delivers them); no overflow or underflow"])


def c13(c):
    c.model("Interval", "SPECIFICATION Spec\nCONSTANT N = 4\nINVARIANTS Encloses Tight Signs\nCHECK_DEADLOCK FALSE\n",
            "the nine-way product, sum, difference and negation on every pair of intervals within -4..4")
    gens = c.generate("Interval", "SPECIFICATION Spec\nCONSTANT N = 2\nINVARIANTS Gen\nCHECK_DEADLOCK FALSE\n", what="every operation on every pair of intervals within -2..2, replayed")
    reqs = []
    for o, l1, h1, l2, h2 in gens:
        a, b = ["n", [l1], [h1]], ["n", [l2], [h2]]
        reqs.append(iv_case(c.rng, ["neg", a] if o == "neg" else [o, a, b], "int"))
    c.judge("IvTrace", c.execute(reqs + iv_cases(c.rng, c.scale(12000, 100000))))
    return c.finish(assumptions=["leaf values are integers or two-magnitude sums; no overflow or underflow"])


def c11(c):
    c.judge("ClsTrace", c.execute(cls_cases(c.rng, c.scale(60000, 600000))))
    return c.finish(assumptions=SCALE_NOTE + ["triangles are non-degenerate; the point tested against a triangle or half plane lies in its plane"])


def c25(c):
    c.judge("ClsTrace", c.execute([axis_case(c.rng) for _ in range(c.scale(40000, 400000))]))
    return c.finish(assumptions=SCALE_NOTE)


TABLE = dict(C11=c11, C12=c12, C13=c13, C25=c25)
