"""C19 duplicate removal; C20-C24, C28 the solid pipeline."""
import solidgen


def dedup_case(rng):
    j = rng.choice([1, 2, 3, 5])
    g = 1 << j
    s = rng.choice([0, -20, -21, -40, 3])
    c = rng.choice([1, 1, 3, 5, 7, 999, 1 << 20, 16777215])
    eps = [c, j + s + 1 - (c.bit_length() - 1)]
    n = rng.choice([0, 1, 2, 3, 5, 8, 12, 30] * 20 + [100, 300])
    m = rng.choice([1, 2, 20, 1 << 15])

    def coord():
        a = rng.randint(-m, m) * g
        t = rng.random()
        if t < 0.4:
            return a + rng.choice([0, 0, g // 2, -(g // 2), g // 2 - 1, 1 - g // 2, g // 2 + 1])
        return a + rng.randint(-g, g)

    pts = []
    for _ in range(n):
        t = rng.random()
        if pts and t < 0.6:
            p = list(rng.choice(pts))
            if t < 0.45:
                i = rng.randrange(3)
                p[i] += rng.randint(-g, g)
            pts.append(p)
        else:
            pts.append([coord() for _ in range(3)])
    still = [[0, 0, 0] for _ in pts]
    if rng.random() < 0.1:
        return dict(op="dedup", pts=pts, nud=still, g=0, eps=[0, 0], k=30, s=s, off=0)
    nud = [[rng.choice([0, 0, 1, -1]) for _ in range(3)] for _ in pts] if rng.random() < 0.5 else still
    return dict(op="dedup", pts=pts, nud=nud, g=g, eps=eps, k=30, s=s, off=0)


def c19(c):
    c.model("Dedup", f"SPECIFICATION Spec\nCONSTANTS N = 3 Vals <- {c.scale('ValsA', 'ValsB')} G = 10\nINVARIANTS TypeOk SoFar Kernel Distinct AllUsed\nPROPERTY Halts\nCHECK_DEADLOCK FALSE\n",
            "all triples of planar points around grid boundaries, all orders a sort may choose")
    c.judge("DedupTrace", c.execute([dedup_case(c.rng) for _ in range(c.scale(30000, 300000))]))
    return c.finish(assumptions=["coordinates and tolerance are exact multiples of a power of two, or the numbers next to them; a coordinate exactly between two grid points may go either way"])


def solid(c, what, gen, n, m, assumptions):
    recs = [gen(c.rng) for _ in range(c.scale(n, m))]
    recs = solidgen.run_same(c, recs) if what in ("same", "back") else c.execute(recs)
    c.judge("SolidTrace", recs, f'CONSTANT What = "{what}"\n', chunk=10000)
    return c.finish(assumptions=assumptions)


ROUND = ["where intersections are not lattice points the output coordinates are rounded to 1/64; probe points are further than that from every plane",
         "small integer inputs, scaled by powers of two and translated, some with every point then moved by 2^-20 to 2^-41 of the unit; shells oriented outward"]


def c20(c):
    return solid(c, "closed", solidgen.any_case, 5000, 50000, ROUND)


LABEL = "SPECIFICATION Spec\nCONSTANTS NX = {} NY = {} LenX = {} LenY = {}\nINVARIANTS TypeOk Rules\nCHECK_DEADLOCK FALSE\n"


def c21(c):
    c.model("CellLabel", LABEL.format(*c.scale((2, 1, 2, 1), (3, 1, 1, 2))), "every shell on the walls of a small arrangement, cheapest labellings")
    return solid(c, "union", solidgen.closed_or_shaken, 4000, 40000, ROUND)


def c22(c):
    c.model("CellLabel", LABEL.format(*c.scale((3, 1, 1, 1), (2, 2, 1, 1))), "every shell on the walls of a small arrangement, cheapest labellings")
    return solid(c, "open", solidgen.open_or_shaken, 6000, 60000, ROUND)


def c23(c):
    return solid(c, "both", solidgen.poly_case, 3000, 30000, ROUND + ["integer plane axes; jitter below half the rounding grid"])


def c24(c):
    return solid(c, "same", solidgen.same_case, 3000, 30000, ROUND)


def c28(c):
    return solid(c, "back", solidgen.back_case, 2500, 25000, ROUND)


TABLE = dict(C28=c28, C19=c19, C20=c20, C21=c21, C22=c22, C23=c23, C24=c24)
