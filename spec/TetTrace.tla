------------------------------- MODULE TetTrace -------------------------------
(* Recorded tetrahedralizations: a Delaunay complex of the convex hull closed by  *)
(* ghost tetrahedra (whose fourth vertex is np), and its navigation.               *)
EXTENDS CaseTrace, Vec3
CONSTANT What           \* "shape", "nav" or "again"

NP(r) == Len(r.pts)
Tets(r) == r.obs.tets
TI(r) == 0..(Len(r.obs.tets) - 1)
D(r, t) == r.obs.tets[t + 1]
Ghost(r, t) == D(r, t)[4] = NP(r)
Nei(r, t, i) == r.obs.nei[t + 1][i + 1]
FaceOf(r, t, i) == {D(r, t)[j] : j \in (1..4) \ {i + 1}}
Pt(r, v) == r.pts[v + 1]
O3(r, a, b, c, d) == SignOf(Orient3(Pt(r, a), Pt(r, b), Pt(r, c), Pt(r, d)), r.k)

AllCoplanar(r) ==
    LET n == NP(r) IN
    \/ n <= 3
    \/ \A b \in 1..(n - 1) : ~ (~ Same(Pt(r, 0), Pt(r, b))
         /\ \E c \in 1..(n - 1) : ~ Collinear(Pt(r, c), Pt(r, 0), Pt(r, b))
              /\ \E d \in 1..(n - 1) : O3(r, 0, b, c, d) # 0)

ValidTets(r) ==
    \A t \in TI(r) : /\ Cardinality({D(r, t)[i] : i \in 1..4}) = 4
                     /\ \A i \in 1..3 : D(r, t)[i] \in 0..(NP(r) - 1)
                     /\ D(r, t)[4] \in 0..NP(r)
Mutual(r) ==
    \A t \in TI(r) : \A i \in 0..3 :
        LET n == Nei(r, t, i) IN
        /\ n[1] \in TI(r) /\ n[2] \in 0..11
        /\ LET b == Nei(r, n[1], n[2] % 4) IN b[1] = t /\ b[2] % 4 = i
Shared(r) ==
    \A t \in TI(r) : \A i \in 0..3 : LET n == Nei(r, t, i) IN FaceOf(r, t, i) = FaceOf(r, n[1], n[2] % 4) /\ D(r, n[1]) # D(r, t)

\* orientation of the library: the fourth vertex lies on the positive side of the first three
Orientated(r) == \A t \in TI(r) : ~ Ghost(r, t) => LET d == D(r, t) IN O3(r, d[1], d[2], d[3], d[4]) < 0
\* the base of a ghost is a hull face seen from outside
HullFaces(r) ==
    \A t \in TI(r) : Ghost(r, t) =>
        LET d == D(r, t) IN \A p \in 0..(NP(r) - 1) : O3(r, d[1], d[2], d[3], p) >= 0
HullVerts(r) == {D(r, t)[i] : t \in {x \in TI(r) : Ghost(r, x)}, i \in 1..3}
Ghosts(r) == {t \in TI(r) : Ghost(r, t)}
Used(r) == {D(r, t)[i] : t \in TI(r) \ Ghosts(r), i \in 1..4}
Distinct(r) == Cardinality({{D(r, t)[i] : i \in 1..4} : t \in TI(r)}) = Len(Tets(r))

In(r, t, p) ==   \* 1: p strictly inside the sphere of the (negatively oriented) tetrahedron t
    LET d == D(r, t) IN -SignOf(InSphere(Pt(r, d[1]), Pt(r, d[2]), Pt(r, d[3]), Pt(r, d[4]), Pt(r, p)), r.k)
Delaunay(r) ==
    \A t \in TI(r) \ Ghosts(r) : \A p \in 0..(NP(r) - 1) : p \in {D(r, t)[i] : i \in 1..4} \/ In(r, t, p) <= 0

\* the sign of the same determinant for one-level points within 130 of the origin, where the full
\* product would not fit TLC's integers: minors are split at 2^10 before they meet the heights
Int3(u, v, w) == u[1] * (v[2] * w[3] - v[3] * w[2]) - u[2] * (v[1] * w[3] - v[3] * w[1]) + u[3] * (v[1] * w[2] - v[2] * w[1])
InWide(r, t, p) ==
    LET d == D(r, t) o == Pt(r, p)
        R(i) == TLCEval(<<Pt(r, d[i])[1][1] - o[1][1], Pt(r, d[i])[2][1] - o[2][1], Pt(r, d[i])[3][1] - o[3][1]>>)
        a == R(1) b == R(2) c == R(3) e == R(4)
        Q(x) == x[1] * x[1] + x[2] * x[2] + x[3] * x[3]
        m == TLCEval(<<-Int3(b, c, e), Int3(a, c, e), -Int3(a, b, e), Int3(a, b, c)>>)
        l == TLCEval(<<Q(a), Q(b), Q(c), Q(e)>>)
        hi == l[1] * (m[1] \div 1024) + l[2] * (m[2] \div 1024) + l[3] * (m[3] \div 1024) + l[4] * (m[4] \div 1024)
        lo == l[1] * (m[1] % 1024) + l[2] * (m[2] % 1024) + l[3] * (m[3] % 1024) + l[4] * (m[4] % 1024)
        top == hi + (lo \div 1024)
    IN -(IF top # 0 THEN Sgn(top) ELSE Sgn(lo % 1024))

\* the same two facts decided locally, which is enough: a triangulation whose every face is
\* locally Delaunay is Delaunay, and a closed surface that is convex at every edge is convex
LocallyDelaunay(r) ==
    \A t \in TI(r) \ Ghosts(r) : \A i \in 0..3 :
        LET n == Nei(r, t, i) IN Ghost(r, n[1]) \/ InWide(r, t, D(r, n[1])[(n[2] % 4) + 1]) <= 0
LocallyConvex(r) ==
    \A t \in Ghosts(r) :
        LET d == D(r, t) IN \A i \in 0..3 :
            LET n == Nei(r, t, i) q == D(r, n[1])[(n[2] % 4) + 1]
            IN O3(r, d[1], d[2], d[3], q) >= 0

\* of points given several times one is used
OnePer(r) ==
    \A v \in 0..(NP(r) - 1) : Cardinality({u \in Used(r) : Pt(r, u) = Pt(r, v)}) = 1
StarOk(r) == \A v \in Used(r) :
    LET t == r.obs.p2t[v + 1] IN t \in TI(r) /\ ~ Ghost(r, t) /\ v \in {D(r, t)[i] : i \in 1..4}

ShapeBad(r) ==
    IF r.f # "big" /\ AllCoplanar(r) THEN Clause("tetrahedra of points on a plane", Tets(r) = <<>>)
    ELSE IF Tets(r) = <<>> THEN {"no tetrahedra for points that span space"}
    ELSE IF ~ ValidTets(r) THEN {"bad vertex"}
    ELSE IF ~ Mutual(r) THEN {"neighbour links are not mutual"}
    ELSE Clause("neighbours do not share their face", Shared(r))
         \cup Clause("a tetrahedron is degenerate or inverted", Orientated(r))
         \cup Clause("a tetrahedron is repeated", Distinct(r))
         \cup Clause("a ghost base is not a hull face", IF r.f = "big" THEN LocallyConvex(r) ELSE HullFaces(r))
         \cup Clause("the hull is not a closed sphere", Cardinality(Ghosts(r)) = 2 * Cardinality(HullVerts(r)) - 4)
         \cup Clause("a point is missing", IF r.f = "big" THEN Used(r) = 0..(NP(r) - 1) ELSE OnePer(r))
         \cup Clause("a point lies inside a circumscribed sphere", IF r.f = "big" THEN LocallyDelaunay(r) ELSE Delaunay(r))
         \cup Clause("a vertex does not map to a live tetrahedron containing it", StarOk(r))

\* ---- navigation ---------------------------------------------------------------
Nv(r, t, v) == r.obs.nav[t + 1][v + 1]
Vs(r, t, v) == Nv(r, t, v).v             \* <<org, dest, apex, oppo>>
Parity(p, d) ==                          \* is the arrangement p an even permutation of d
    LET q == [i \in 1..4 |-> CHOOSE j \in 1..4 : d[j] = p[i]]
    IN Cardinality({ij \in (1..4) \X (1..4) : ij[1] < ij[2] /\ q[ij[1]] > q[ij[2]]}) % 2
NavBad(r) ==
    UNION {UNION {
        LET n == Nv(r, t, v) a == n.v d == D(r, t)
            W(x) == Vs(r, t, x)
        IN Clause("vertices of a handle", {a[i] : i \in 1..4} = {d[i] : i \in 1..4})
           \cup Clause("handedness of a handle", {a[i] : i \in 1..4} = {d[i] : i \in 1..4} => Parity(a, d) = Parity(Vs(r, 0, 11), D(r, 0)))
           \cup Clause("face number of a handle", a[4] = d[(v % 4) + 1])
           \cup Clause("next", W(n.enext) = <<a[2], a[3], a[1], a[4]>> /\ n.enext2 = n.enext /\ n.same = 1)
           \cup Clause("previous", W(n.eprev) = <<a[3], a[1], a[2], a[4]>> /\ n.eprev2 = n.eprev)
           \cup Clause("symmetric edge", W(n.esym) = <<a[2], a[1], a[4], a[3]>>)
           \cup Clause("next, symmetric", W(n.ne) = <<a[3], a[2], a[4], a[1]>>)
           \cup Clause("previous, symmetric", W(n.pe) = <<a[1], a[3], a[4], a[2]>>)
           \cup Clause("across the face",
                  /\ n.fsym[1] \in TI(r) /\ n.fsym = n.fsym2
                  /\ SubSeq(Vs(r, n.fsym[1], n.fsym[2]), 1, 3) = <<a[2], a[1], a[3]>>
                  /\ Nv(r, n.fsym[1], n.fsym[2]).fsym = <<t, v>>)
           \cup Clause("next face about the edge",
                  /\ n.fnext[1] \in TI(r)
                  /\ SubSeq(Vs(r, n.fnext[1], n.fnext[2]), 1, 3) = <<a[1], a[2], a[4]>>)
        : v \in 0..11} : t \in TI(r)}
IndexOk(r) == \A t \in TI(r) : \A v \in 0..NP(r) :
    LET i == r.obs.index[t + 1][v + 1]
    IN IF v \in {D(r, t)[j] : j \in 1..4} THEN i \in 0..3 /\ D(r, t)[i + 1] = v ELSE i = -1
StarSet(r, v) == {t \in TI(r) \ Ghosts(r) : v \in {D(r, t)[i] : i \in 1..4}}
SetOf(s) == {s[i] : i \in 1..Len(s)}
StarsOk(r, inc) == \A v \in 0..(NP(r) - 1) :
    LET s == inc[v + 1] IN SetOf(s) = StarSet(r, v) /\ Len(s) = Cardinality(SetOf(s))
MapBad(r) ==
    IF AllCoplanar(r) \/ Tets(r) = <<>> THEN {}
    ELSE NavBad(r)
         \cup Clause("position of a vertex in a tetrahedron", IndexOk(r))
         \cup Clause("handle leaving a vertex", \A t \in TI(r) : \A i \in 1..4 : Vs(r, t, r.obs.vpivot[i])[1] = D(r, t)[i])
         \cup Clause("the star of a vertex", StarsOk(r, r.obs.inc))
         \cup Clause("the star of a vertex, asked again", StarsOk(r, r.obs.inc2))
         \cup Clause("asking for stars leaves marks on the mesh", r.obs.clean = 1)

\* ---- the order of insertion is drawn at random, the result is not (TetInsert!ByDefinition) ----
AgainBad(r) == Clause("the same points give another complex", \A j \in 2..Len(r.obs.runs) : r.obs.runs[j] = r.obs.runs[1])

Bad(r) == IF r.obs.crash # "" THEN {r.obs.crash}
          ELSE IF What = "shape" THEN ShapeBad(r) ELSE IF What = "nav" THEN MapBad(r) ELSE AgainBad(r)

TraceNext == CaseReturn(Bad(Trace[h]))
TraceSpec == CaseInit /\ [][TraceNext]_<<h, k>>
TraceDone == CaseDone
=============================================================================
