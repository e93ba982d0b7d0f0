"""C04 construction, C05 edit histories, C06 traversals of the half-edge mesh."""
import itertools


def gen_polys(rng, nmax=7, fmax=6):
    style = rng.random()
    if style < 0.2:   # strip or fan
        n = rng.randint(3, nmax + 1)
        ps = [[0, i, i + 1] for i in range(1, n - 1)] if rng.random() < 0.5 else [[i, i + 1, i + 2] if i % 2 == 0 else [i + 1, i, i + 2] for i in range(n - 2)]
    elif style < 0.35:  # k faces around one edge
        k = rng.randint(2, 5)
        ps = [[0, 1, 2 + i] for i in range(k)]
    elif style < 0.45:  # grid of quads
        w, h = rng.randint(1, 2), rng.randint(1, 2)
        ps = [[y * (w + 1) + x, y * (w + 1) + x + 1, (y + 1) * (w + 1) + x + 1, (y + 1) * (w + 1) + x] for y in range(h) for x in range(w)]
    elif style < 0.55:  # closed solids
        ps = rng.choice([[[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]],
                         [[0, 3, 2, 1], [4, 5, 6, 7], [0, 1, 5, 4], [1, 2, 6, 5], [2, 3, 7, 6], [3, 0, 4, 7]],
                         [[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1], [5, 2, 1], [5, 3, 2], [5, 4, 3], [5, 1, 4]]])
    else:
        n = rng.randint(3, nmax)
        ps = [rng.sample(range(n), rng.randint(3, min(n, 6))) for _ in range(rng.randint(1, fmax))]
    ps = [list(p) for p in ps]
    if rng.random() < 0.3:
        for p in ps:
            if rng.random() < 0.3: p.reverse()
    if rng.random() < 0.2:
        ps.append(list(rng.choice(ps)))
    if rng.random() < 0.3:
        rng.shuffle(ps)
    # number the vertices 0.. without gaps, in random order
    vs = sorted({v for p in ps for v in p})
    new = list(range(len(vs)))
    if rng.random() < 0.5: rng.shuffle(new)
    mp = dict(zip(vs, new))
    return [[mp[v] for v in p] for p in ps]


def slit_polys(rng):
    """faces with slits and pinches: a boundary that runs along one edge twice or touches a vertex again, with neighbours"""
    n = rng.randint(4, 8)
    ps = []
    for _ in range(rng.randint(1, 3)):
        p = rng.sample(range(n), rng.randint(3, min(n, 5)))
        i = rng.randrange(len(p))
        rest = [v for v in range(n) if v not in p]
        if rest and rng.random() < 0.7:      # out along a free path and back the same way
            out = rng.sample(rest, rng.randint(1, min(2, len(rest))))
            p = p[:i + 1] + out + out[-2::-1] + p[i:]
        elif len(p) >= 4:                    # one edge there and back
            p = p[:i + 1] + [p[i - 1]] + p[i:]
        ps.append(p)
        if rng.random() < 0.7:               # a neighbour along one of its edges
            j = rng.randrange(len(p))
            a, b = p[j], p[(j + 1) % len(p)]
            others = [v for v in range(n + 1) if v not in (a, b)]
            q = [a, b] if rng.random() < 0.5 else [b, a]
            ps.append(q + rng.sample(others, rng.randint(1, 2)))
    rng.shuffle(ps)
    vs = sorted({v for p in ps for v in p})
    new = list(range(len(vs)))
    if rng.random() < 0.5: rng.shuffle(new)
    mp = dict(zip(vs, new))
    return [[mp[v] for v in p] for p in ps]


def gen_ops(rng, n):
    ops = []
    for _ in range(n):
        q = rng.random()
        if q < 0.4: ops.append(["se", rng.randrange(1000)])
        elif q < 0.75: ops.append(["sf", rng.randrange(1000), rng.randrange(1000)])
        else: ops.append(["af", rng.randrange(1000), [rng.randrange(1000) for _ in range(8)]])
    return ops


def small_polys():
    """every list of one or two triangles/quads on at most four vertices, up to the first one"""
    cyc = [list(p) for n in (3, 4) for p in itertools.permutations(range(4), n) if p[0] == min(p)]
    out = []
    for a in ([0, 1, 2], [0, 1, 2, 3]):
        out.append([a])
        for b in cyc:
            for r in range(len(b)):
                ps = [a, b[r:] + b[:r]]
                out.append(ps)
    return [p for p in out if set(range(max(v for q in p for v in q) + 1)) == {v for q in p for v in q}]


MODEL = "SPECIFICATION Spec\nINVARIANT Inv\nVIEW View\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxOps=%d Gen=0 Starts=%s\n"
GENC = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxOps=%d Gen=1 Starts=%s\n"
ALL = "{1,2,3,4,5,6,7,8,9,10,11}"


def replayed(c):
    out, seen = [], set()
    for starts, d in c.scale([("{1,2,4,5,6,7,9,10}", 1), ("{1,2,4}", 2)], [(ALL, 2), ("{1,5}", 3)]):
        for hist in c.generate("SurfaceMesh", GENC % (d, starts), what="edit histories of the half-edge model", timeout=900):
            if str(hist) in seen: continue
            seen.add(str(hist))
            ops = [[{"se": "SE", "sf": "SF", "af": "AF"}[o[0]]] + ([o[1:]] if o[0] == "af" else o[1:]) for o in hist[1:]]
            out.append(dict(op="mesh", polys=hist[0], ops=ops))
    return out


def model(c):
    c.model("SurfaceMesh", MODEL % (1, ALL), "half-edge link updates, every single edit of eleven starting meshes")
    c.model("SurfaceMesh", MODEL % c.scale((2, "{1,2,4,6}"), (2, ALL)), "half-edge link updates, every pair of edits", timeout=900)
    if c.thorough:
        c.model("SurfaceMesh", MODEL % (3, "{1,2,3}"), "half-edge link updates, every triple of edits", timeout=1500)


def c04(c):
    model(c)
    reqs = [dict(op="mesh", polys=p, ops=[]) for p in small_polys()]
    reqs += [dict(op="mesh", polys=slit_polys(c.rng), ops=[]) for _ in range(c.scale(300, 3000))]
    reqs += [dict(op="mesh", polys=gen_polys(c.rng, 9, 9), ops=[]) for _ in range(c.scale(2500, 20000))]
    c.judge("MeshTrace", c.execute(reqs), 'CONSTANT What = "build"\n')
    return c.finish()


def histories(c, n):
    reqs = replayed(c)
    for _ in range(n):
        reqs.append(dict(op="mesh", polys=gen_polys(c.rng, 6, 5), ops=gen_ops(c.rng, c.rng.choice([1, 2, 4, 6]))))
    return reqs


def c05(c):
    model(c)
    c.judge("MeshTrace", c.execute(histories(c, c.scale(1500, 12000))), 'CONSTANT What = "edit"\n')
    return c.finish()


def c06(c):
    reqs = [dict(op="mesh", polys=gen_polys(c.rng, 8, 8), ops=[]) for _ in range(c.scale(800, 8000))]
    c.judge("MeshTrace", c.execute(reqs + histories(c, c.scale(700, 8000))), 'CONSTANT What = "walk"\n')
    return c.finish()


TABLE = dict(C04=c04, C05=c05, C06=c06)
