"""Nearly degenerate points whose coordinates use the whole mantissa, as digits (base 4096) of integers in one unit."""
import itertools
from fractions import Fraction as F

K = 12


def rnd(x):
    """the double nearest to a rational (integer result: units are chosen so that all doubles used are integers)"""
    x = F(x)
    if x == 0:
        return 0
    a = abs(x)
    n = a.numerator // a.denominator
    e = max(0, n.bit_length() - 53)
    q = (a / (1 << e))
    m = q.numerator // q.denominator
    if q - m >= F(1, 2):
        m += 1
    v = m << e
    return -v if x < 0 else v


def digits(n):
    s = -1 if n < 0 else 1
    n = abs(n)
    out = []
    while n:
        out.append(s * (n & 4095))
        n >>= 12
    return out or [0]


def coord(rng, bits, span):
    return rng.choice([-1, 1]) * (rng.getrandbits(bits) | (1 << (bits - 1))) << rng.randint(0, span)


def nudge(rng, p, j):
    """move coordinate j by a few units in its last place"""
    v = p[j]
    e = max(0, abs(v).bit_length() - 53)
    w = v + (rng.choice([-2, -1, 1, 2]) << e)
    p[j] = rnd(w)


def solve(A, b):
    """rational solution of a small linear system, or None"""
    n = len(b)
    M = [[F(x) for x in A[i]] + [F(b[i])] for i in range(n)]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c]), None)
        if p is None:
            return None
        M[c], M[p] = M[p], M[c]
        for r in range(n):
            if r != c and M[r][c]:
                f = M[r][c] / M[c][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [M[i][n] / M[i][i] for i in range(n)]


def weights(rng, n):
    t = rng.choice([0, 0, 1, 1, 2])
    if t == 0:
        w = [F(rng.randint(-64, 64), 64) for _ in range(n)]
    elif t == 1:     # close to one of them
        w = [F(rng.randint(-1000, 1000), 1 << rng.choice([15, 25, 40])) for _ in range(n)]
    else:
        w = [F(rng.getrandbits(53), 1 << 53) for _ in range(n)]
    w[rng.randrange(n)] += 1 - sum(w)
    return w


def near(rng, f):
    d = 2 if f in ("orient2d", "incircle") else 4 if f == "orient4d" else 3
    n = {"orient2d": 3, "orient3d": 4, "incircle": 4, "insphere": 5, "orient4d": 5}[f]
    bits = rng.choice([53, 53, 53, 52, 48, 40, 30, 27, 20])
    span = rng.choice([0, 0, 1, 3, 10, 30]) if f != "insphere" else rng.choice([0, 0, 1, 3, 10])
    for _ in range(50):
        pts = [[coord(rng, bits, span) for _ in range(d)] for _ in range(n - 1)]
        if rng.random() < 0.3:     # a cluster far from the origin
            o = [coord(rng, 53, span) for _ in range(d)]
            sh = rng.choice([20, 30, 40])
            pts = [[rnd(o[j] + F(p[j], 1 << sh)) for j in range(d)] for p in pts]
        if f in ("orient2d", "orient3d", "orient4d"):
            w = weights(rng, n - 1)
            last = [sum(w[i] * pts[i][j] for i in range(n - 1)) for j in range(d)]
        else:
            A = [[2 * (pts[i + 1][j] - pts[0][j]) for j in range(d)] for i in range(d)]
            b = [sum(pts[i + 1][j] ** 2 - pts[0][j] ** 2 for j in range(d)) for i in range(d)]
            o = solve(A, b)
            if o is None:
                continue
            v = [rng.randint(-40, 40) for _ in range(d)]
            if not any(v):
                continue
            if rng.random() < 0.3:     # close to the first point again
                a0 = [pts[0][j] - o[j] for j in range(d)]
                # a direction nearly across the radius
                c = [-a0[1], a0[0]] + ([F(0)] if d == 3 else [])
                v = [F(c[j]) + F(rng.randint(-9, 9), 1 << rng.choice([10, 20, 30])) * a0[j] for j in range(d)]
                if not any(v):
                    continue
            vv = sum(F(x) * x for x in v)
            dot = sum((pts[0][j] - o[j]) * v[j] for j in range(d))
            last = [pts[0][j] - 2 * dot * v[j] / vv for j in range(d)]
        if any(abs(x) >= 1 << 110 for x in last):
            continue
        pts.append([rnd(x) for x in last])
        if rng.random() < 0.4:
            nudge(rng, pts[-1], rng.randrange(d))
        rng.shuffle(pts)
        return pts
    return [[coord(rng, 53, 0) for _ in range(d)] for _ in range(n)]


def pred_full(rng, fs, count):
    out = []
    for i in range(count):
        f = fs[i % len(fs)]
        pts = near(rng, f)
        out.append(dict(op="pred", f=f, mode="full", k=K, s=rng.choice([0, -53, -60]), off=0, pts=[[digits(c) for c in p] for p in pts]))
    return out


# ------------------------------------------------------------------ implicit points
def around(rng, P, sizes, along=None):
    """a triangle whose plane passes near P (to the last bits), and, if wanted, nearly contains a direction"""
    d1 = along or [F(coord(rng, 30, 0), 1 << 30) * rng.choice(sizes) for _ in range(3)]
    d2 = [F(coord(rng, 30, 0), 1 << 30) * rng.choice(sizes) for _ in range(3)]
    out = []
    while True:
        w = [(rng.randint(-3, 3), rng.randint(-3, 3)) for _ in range(3)]
        if (w[1][0] - w[0][0]) * (w[2][1] - w[0][1]) != (w[1][1] - w[0][1]) * (w[2][0] - w[0][0]):
            break
    for i, j in w:
        out.append([rnd(P[c] + i * d1[c] + j * d2[c]) for c in range(3)])
    return out


def rep(rng, P, t, sizes):
    if t == "E":
        return dict(t="E", p=[[rnd(c) for c in P]])
    if rng.random() < 0.15:
        # line and plane, or three planes, that are parallel but for the last bits
        d = [F(coord(rng, 30, 0), 1 << 30) * rng.choice(sizes) for _ in range(3)]
        if t == "L":
            return dict(t="L", p=[[rnd(P[c] + x * d[c]) for c in range(3)] for x in (-1, 2)] + around(rng, P, sizes, d))
        return dict(t="T", p=around(rng, P, sizes, d) + around(rng, P, sizes, d) + around(rng, P, sizes, d))
    if t == "L":
        d = [F(coord(rng, 30, 0), 1 << 30) * rng.choice(sizes) for _ in range(3)]
        a, b = rng.sample([-3, -2, -1, 1, 2, 3], 2)
        return dict(t="L", p=[[rnd(P[c] + x * d[c]) for c in range(3)] for x in (a, b)] + around(rng, P, sizes))
    return dict(t="T", p=around(rng, P, sizes) + around(rng, P, sizes) + around(rng, P, sizes))


def imp_full(rng, f, kinds):
    n = len(kinds)
    bits = rng.choice([53, 53, 50, 40, 30])
    unit = 1 << bits
    base = [[F(coord(rng, bits, 0)) for _ in range(3)] for _ in range(4)]
    if rng.random() < 0.8:
        if n == 4:
            w = weights(rng, 3)
            base[3] = [sum(w[i] * base[i][c] for i in range(3)) for c in range(3)]
        elif n == 3:
            w = weights(rng, 2)
            base[2] = [sum(w[i] * base[i][c] for i in range(2)) for c in range(3)]
        else:
            base[1] = list(base[0]) if rng.random() < 0.6 else [base[0][c] + rng.randint(-3, 3) for c in range(3)]
    sizes = rng.choice([[unit], [unit, unit // 64], [unit // 1024], [unit * 8]])
    V = base[:n]
    # points of very different magnitude
    far = rng.random() < 0.4 and (n == 3 or n == 4)
    up = [rng.choice([0, 0, 20, 30, 40]) if far else 0 for _ in range(n)]
    if far:
        for i in range(n - 1):
            V[i] = [c * (1 << up[i]) for c in V[i]]
        w = weights(rng, n - 1) if rng.random() < 0.5 else [F(rng.choice([-1, 1])), F(1), F(1)][:n - 1]
        w[-1] += 1 - sum(w)
        if rng.random() < 0.5:       # the last point may well be the large or a small one
            w = [F(rng.choice([-1, 1]), 1 << u) for u in up[:n - 1]]
            j = min(range(n - 1), key=lambda i: up[i])
            w[j] += 1 - sum(w)
        V[n - 1] = [sum(w[i] * V[i][c] for i in range(n - 1)) for c in range(3)]
        up[n - 1] = max(0, max(abs(int(c)).bit_length() for c in V[n - 1]) - bits)
    order = list(range(n))
    rng.shuffle(order)
    pts = [rep(rng, V[i], t, [x << up[i] for x in sizes]) for i, t in zip(order, kinds)]
    return dict(op="imp", f=f, mode="full", k=K, s=rng.choice([0, -53, -53, -43, -35, -30, -25]), off=0,
                pts=[dict(t=x["t"], v=[[0], [0], [0]], p=[[digits(c) for c in q] for q in x["p"]]) for x in pts])


def imp_shared(rng, f, kinds):
    """points that are exactly degenerate because of what they share: a line, a plane or the point itself"""
    n = len(kinds)
    bits = rng.choice([53, 53, 45, 40, 30, 20])
    span = rng.choice([0, 0, 1, 4])
    if f == "o3" and kinds.count("L") + kinds.count("T") == 4:      # more would need a wider range than doubles have
        bits, span = min(bits, 40), 0
    R = lambda: [coord(rng, bits, span) for _ in range(3)]
    tri = lambda *known: shuffled(list(known) + [R() for _ in range(3 - len(known))])

    def shuffled(x):
        rng.shuffle(x)
        return x
    planes = lambda *x: [p for q in shuffled(list(x)) for p in q]
    p, q, r = R(), R(), R()
    A, B = tri(), tri()
    out = []
    sub = rng.random() < 0.5
    for t in kinds:
        if f == "o3":        # on the plane p q r
            if t == "E":
                P = [rng.choice([p, q, r])]
            elif t == "L":
                P = shuffled(rng.sample([p, q, r], 2)) + tri() if rng.random() < 0.5 else [R(), R()] + shuffled([p, q, r])
            else:
                P = planes(shuffled([p, q, r]), tri(), tri())
        elif f.startswith("o2"):      # on the line p q, or where two planes meet
            if t == "E":
                P = [rng.choice([p, q])]
            elif t == "L":
                P = shuffled([p, q]) + tri()
            elif sub and "E" not in kinds and "L" not in kinds:
                P = planes(shuffled(A[:]), shuffled(B[:]), tri())
            else:
                P = planes(tri(p, q), tri(p, q), tri())
        else:                # the point p, or where the line p q meets the plane A
            if t == "E":
                P = [p]
            elif t == "L":
                P = shuffled([p, q]) + (shuffled(A[:]) if sub and "E" not in kinds else tri(p))
            elif sub and "E" not in kinds:
                P = planes(tri(p, q), tri(p, q), shuffled(A[:]))
            else:
                P = planes(tri(p), tri(p), tri(p))
        out.append(dict(t=t, p=P))
    if rng.random() < 0.25:           # almost
        x = rng.choice(out)
        x["p"] = [list(v) for v in x["p"]]
        nudge(rng, rng.choice(x["p"]), rng.randrange(3))
    return dict(op="imp", f=f, mode="shared", k=K, s=rng.choice([0, -53, -53, -43, -35, -30, -25]), off=0,
                pts=[dict(t=x["t"], v=[[0], [0], [0]], p=[[digits(c) for c in v] for v in x["p"]]) for x in out])


def imp_full_cases(rng, fs, per, make=imp_full):
    out = []
    for f in fs:
        n = 4 if f == "o3" else 2 if f.startswith("lt") else 3
        for kinds in itertools.product("ELT", repeat=n):
            out += [make(rng, f, kinds) for _ in range(per)]
    return out


def imp_shared_cases(rng, fs, per):
    return imp_full_cases(rng, fs, per, imp_shared)
