------------------------------- MODULE TriTrace -------------------------------
(* Recorded triangulations: of a planar point set (Delaunay), of a planar region   *)
(* bounded by segments, and of polygons in space.                                   *)
EXTENDS CaseTrace, Vec3, Tiling

\* ---- points in the plane ------------------------------------------------------
Collinear2(a, b, c, K) == SignOf(Orient2(a, b, c), K) = 0
Dot2v(u, v) == Add(Mul(u[1], v[1]), Mul(u[2], v[2]))
Inside2(p, a, b, K) == p # a /\ p # b /\ Collinear2(p, a, b, K) /\ SignOf(Dot2v(VSub(p, a), VSub(p, b)), K) < 0
Pt(r, i) == r.pts[i + 1]

AllCollinear(r) ==
    \/ Len(r.pts) <= 2
    \/ \A i \in 3..Len(r.pts) : Collinear2(r.pts[1], r.pts[2], r.pts[i], r.k)

Left(r, T) == \A t \in 1..Len(T) : SignOf(Orient2(Pt(r, T[t][1]), Pt(r, T[t][2]), Pt(r, T[t][3])), r.k) > 0
Idx(r) == 0..(Len(r.pts) - 1)

DelaunayBad(r) ==
    LET T == r.obs.tris IN
    IF AllCollinear(r) THEN Clause("triangles from collinear points", T = <<>>)
    ELSE IF ~ ValidIdx(T, Len(r.pts)) \/ r.obs.rem # 0 THEN {"bad index"}
    ELSE Clause("a triangle is degenerate or clockwise", Left(r, T))
         \cup Clause("a point is not used", {T[t][i] : t \in 1..Len(T), i \in 1..3} = Idx(r))
         \cup Clause("triangles overlap", EdgesOnce(T))
         \cup Clause("the hull is not covered",
                     \A e \in Rim(T) : \A p \in Idx(r) : SignOf(Orient2(Pt(r, e[1]), Pt(r, e[2]), Pt(r, p)), r.k) >= 0)
         \cup Clause("a point lies inside a circumcircle",
                     \A t \in 1..Len(T) : \A p \in Idx(r) \ {T[t][i] : i \in 1..3} :
                        SignOf(InCircle(Pt(r, T[t][1]), Pt(r, T[t][2]), Pt(r, T[t][3]), Pt(r, p)), r.k) <= 0)

\* ---- region bounded by segments -------------------------------------------------
SegChain(r, s) ==
    LET a == Pt(r, s[1]) b == Pt(r, s[2])
        I == {p \in Idx(r) : Inside2(Pt(r, p), a, b, r.k)}
        D == VSub(b, a)
    IN Elementary(I \cup {s[1], s[2]}, LAMBDA i, j : SignOf(Dot2v(VSub(Pt(r, j), Pt(r, i)), D), r.k) > 0)
Boundary(r) == UNION {SegChain(r, r.segs[i]) : i \in 1..Len(r.segs)}
\* p in the closed triangle
InClosed(r, p, t) ==
    LET a == Pt(r, t[1]) b == Pt(r, t[2]) c == Pt(r, t[3]) IN
    /\ SignOf(Orient2(a, b, p), r.k) >= 0
    /\ SignOf(Orient2(b, c, p), r.k) >= 0
    /\ SignOf(Orient2(c, a, p), r.k) >= 0
RegionBad(r) ==
    LET T == r.obs.tris IN
    IF AllCollinear(r) THEN Clause("triangles from collinear points", T = <<>>)
    ELSE IF ~ ValidIdx(T, Len(r.pts)) \/ r.obs.rem # 0 THEN {"bad index"}
    ELSE Clause("a triangle is degenerate or clockwise", Left(r, T))
         \cup Clause("triangles overlap", EdgesOnce(T))
         \cup Clause("the triangles do not fill exactly the region", Rim(T) = Boundary(r))
         \cup Clause("an input point lies in a triangle",
                     \A t \in 1..Len(T) : \A p \in Idx(r) \ {T[t][i] : i \in 1..3} : ~ InClosed(r, Pt(r, p), T[t]))

\* ---- constrained Delaunay ---------------------------------------------------------
\* No edge inside the region could be improved by a flip; by the lemma of Lee and Lin no
\* point that can be seen from inside a triangle lies in its circumcircle then.
\* nb[t][i] names the triangle across side i (-1: none), as evidence that is checked.
Inner(r) == {s \in Slots(r.obs.tris) : r.nb[s[1]][s[2]] # -1}
Across(T, nb, s) ==
    LET u == nb[s[1]][s[2]] + 1 e == EdgeAt(T, s)
    IN u \in 1..Len(T) /\ \E i \in 1..3 : EdgeAt(T, <<u, i>>) = <<e[2], e[1]>>
Beyond(T, nb, s) == LET u == nb[s[1]][s[2]] + 1 e == EdgeAt(T, s) IN CHOOSE c \in {T[u][i] : i \in 1..3} : c # e[1] /\ c # e[2]
CdtBad(r) ==
    LET b == TLCEval(RegionBad(r)) T == TLCEval(r.obs.tris) S == TLCEval(Inner(r)) IN
    IF b # {} THEN b
    ELSE IF ~ Assert((\A x \in S : Across(T, r.nb, x)) /\ Cardinality(S) + Cardinality(Rim(T)) = 3 * Len(T), <<"evidence", r.id>>) THEN {}
    ELSE Clause("an edge inside the region is not Delaunay",
                \A x \in S : LET t == TLCEval(T[x[1]]) d == TLCEval(Beyond(T, r.nb, x))
                              IN SignOf(InCircle(Pt(r, t[1]), Pt(r, t[2]), Pt(r, t[3]), Pt(r, d)), r.k) <= 0)

\* ---- polygons in space ------------------------------------------------------------
FaceIdx(f) == UNION {{f[i][1], f[i][2]} : i \in 1..Len(f)}
SegChain3(r, f, s) ==
    LET a == Pt(r, s[1]) b == Pt(r, s[2])
        I == {p \in FaceIdx(f) : OpenSeg(Pt(r, p), a, b, r.k)}
        D == VSub(b, a)
    IN Elementary(I \cup {s[1], s[2]}, LAMBDA i, j : SignOf(Dot(VSub(Pt(r, j), Pt(r, i)), D), r.k) > 0)
Boundary3(r, f) == UNION {SegChain3(r, f, f[i]) : i \in 1..Len(f)}
Num(v) == [i \in 1..3 |-> <<v[i]>>]
Facing(r, ax, t) ==
    LET n == Cross(Num(ax[2]), Num(ax[3]))
    IN SignOf(Dot(n, Cross(VSub(Pt(r, t[2]), Pt(r, t[1])), VSub(Pt(r, t[3]), Pt(r, t[1])))), r.k)
\* a polygon there and back along one line
Flat3(r, P) ==
    \A i, j, l \in P : \A c \in 1..3 :
        SignOf(Cross(VSub(Pt(r, j), Pt(r, i)), VSub(Pt(r, l), Pt(r, i)))[c], r.k) = 0
FaceBad(r, f, ax, T) ==
    LET P == FaceIdx(f) IN
    IF Cardinality(P) < 6 /\ Flat3(r, P) THEN Clause("triangles from collinear points", T = <<>>)
    ELSE IF ~ (\A t \in 1..Len(T) : \A i \in 1..3 : T[t][i] \in P) THEN {"a triangle uses a point of another polygon"}
    ELSE Clause("a triangle is degenerate or faces the other way", \A t \in 1..Len(T) : Facing(r, ax, T[t]) > 0)
         \cup Clause("triangles overlap", EdgesOnce(T))
         \cup Clause("the triangles do not fill exactly the polygon", Rim(T) = Boundary3(r, f))
Sel(T, par, i) == LET J == SelectSeq([j \in 1..Len(T) |-> j], LAMBDA j : par[j] = i) IN [x \in 1..Len(J) |-> T[J[x]]]
SoupBad(r) ==
    LET T == r.obs.tris par == r.obs.par IN
    IF r.obs.rem # 0 \/ Len(par) # Len(T) THEN {"one parent per triangle"}
    ELSE Clause("parents out of order", \A j \in 1..Len(par) : par[j] \in 0..(Len(r.faces) - 1) /\ (j > 1 => par[j - 1] <= par[j]))
         \cup UNION {FaceBad(r, r.faces[i], r.axes[i], TLCEval(Sel(T, par, i - 1))) : i \in 1..Len(r.faces)}

Bad(r) ==
    IF r.obs.crash # "" THEN {r.obs.crash}
    ELSE IF "nb" \in DOMAIN r THEN CdtBad(r)
    ELSE IF r.op = "soup" THEN SoupBad(r)
    ELSE IF r.op = "tri3" THEN FaceBad(r, r.segs, r.axes[1], r.obs.tris)
    ELSE IF r.segs = <<>> THEN DelaunayBad(r) ELSE RegionBad(r)

TraceNext == CaseReturn(Bad(Trace[h]))
TraceSpec == CaseInit /\ [][TraceNext]_<<h, k>>
TraceDone == CaseDone
=============================================================================
