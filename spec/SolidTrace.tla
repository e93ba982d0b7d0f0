------------------------------ MODULE SolidTrace ------------------------------
(* Recorded runs of the solid pipeline.  A record carries the input triangles     *)
(* (points, shell of each), the numbers of the complete shells, probe points      *)
(* clear of every input plane, and the produced surface: coordinates rounded to   *)
(* 1/om (exact where the construction only yields lattice points), the rank of    *)
(* every coordinate among the output values, triangles.                           *)
EXTENDS CaseTrace, Solid
CONSTANT What       \* "closed", "union", "open" , "both" (closed and union), "same", "back"


Shell(r, s) == SelectSeq([i \in 1..Len(r.tris) |-> <<i, r.tris[i]>>], LAMBDA x : r.shells[x[1]] = s)
ShellTri(r, s) == LET X == Shell(r, s) IN Coords(r.pts, [i \in 1..Len(X) |-> X[i][2]])
Valid(o) == o.badidx = 0 /\ \A i \in 1..Len(o.tris) : \A c \in 1..3 : o.tris[i][c] \in 0..(Len(o.pts) - 1)
OutTri(o) == Coords(o.pts, o.tris)

\* unit of the winding computation: probes are given times pm, the input and the output are brought to it
InB(r, T) == Boxed(Scaled(T, r.pm))
OutB(r, o) == Boxed(Scaled(OutTri(o), r.pm \div r.om))

\* points moved by next to nothing: different points may round to the same one
Rough(r) == "rough" \in DOMAIN r

\* ------------------------------------------------------------ closed surface (on indices)
ClosedBad(r, o) ==
    IF ~ Valid(o) THEN {"a triangle names a missing point"}
    ELSE Clause("a triangle repeats a corner", ThreeCorners(o.tris))
         \cup Clause("a triangle is reported twice", Rough(r) \/ NoTwice(o.tris))
         \cup Clause("an edge is not matched by its opposite", Balanced(o.tris))
         \cup Clause("two points coincide", Rough(r) \/ Cardinality({o.rank[i] : i \in 1..Len(o.rank)}) = Len(o.pts))
         \cup Clause("a coordinate lies outside the box of the input", o.far = 0)
         \cup Clause("a point belongs to no triangle", {o.tris[i][c] : i \in 1..Len(o.tris), c \in 1..3} = 0..(Len(o.pts) - 1))
         \cup (IF r.exact THEN LET T == OutTri(o) IN
                   Clause("the output is not on the lattice", o.nonint = 0)
                   \cup Clause("a triangle is degenerate", \A i \in 1..Len(T) : Normal(T[i]) # <<0, 0, 0>>)
               ELSE {})
\* off the surface the winding number is 0 or 1
ZeroOneBad(r, o) ==
    IF ~ Valid(o) THEN {} ELSE LET B == OutB(r, o) IN
    Clause("a point is enclosed other than once or not at all",
           \A i \in 1..Len(r.q) : (r.clear \/ Clear(B, r.q[i], 1)) => Wind(B, r.q[i]) \in {0, 1})

\* ------------------------------------------------------------ union of the complete shells
\* number of complete shells whose enclosed region contains q
InSome(r, S, q) == \E s \in DOMAIN S : Wind(S[s], q) # 0
Shells(r) == TLCEval([s \in {r.closed[i] : i \in 1..Len(r.closed)} |-> InB(r, ShellTri(r, s))])

OnPlane(r, t, o) ==      \* the output triangle lies in the plane of an input triangle
    \E i \in 1..Len(r.tris) :
        LET u == <<r.pts[r.tris[i][1] + 1], r.pts[r.tris[i][2] + 1], r.pts[r.tris[i][3] + 1]>>
            n == Normal(u)
        IN n # <<0, 0, 0>> /\ \A c \in 1..3 :
            LET e == Ab(Dt(n, <<t[c][1] - r.om * u[1][1], t[c][2] - r.om * u[1][2], t[c][3] - r.om * u[1][3]>>))
            IN IF r.exact THEN e = 0 ELSE 2 * e <= Ab(n[1]) + Ab(n[2]) + Ab(n[3]) + 1

\* the boundary of the union over cells of the Kuhn lattice, counted in unit facets
Facets(c) == {{c[j] : j \in (1..4) \ {i}} : i \in 1..4}
BoundaryFacets(r, ins) ==
    LET F(i) == Facets(r.cells[i])
        all == UNION {F(i) : i \in ins}
    IN Cardinality({f \in all : Cardinality({i \in ins : f \in F(i)}) = 1})
MaxN(n) == Mx(Ab(n[1]), Mx(Ab(n[2]), Ab(n[3])))
RECURSIVE SumArea(_, _)
SumArea(T, i) == IF i = 0 THEN 0 ELSE MaxN(Normal(T[i])) + SumArea(T, i - 1)
RECURSIVE SumVol(_, _)
SumVol(T, i) == IF i = 0 THEN 0 ELSE Dt(T[i][1], Crs(T[i][2], T[i][3])) + SumVol(T, i - 1)

UnionBad(r, o) ==
    IF ~ Valid(o) THEN {}
    ELSE LET S == Shells(r) B == OutB(r, o) T == OutTri(o)
             ins == TLCEval({i \in 1..Len(r.q) : InSome(r, S, r.q[i])})
         IN Clause("a point enclosed by a shell is not enclosed", \A i \in ins : Wind(B, r.q[i]) = 1)
            \cup Clause("a point outside every shell is enclosed", \A i \in (1..Len(r.q)) \ ins : Wind(B, r.q[i]) = 0)
            \cup Clause("an output triangle lies on no input plane", \A i \in 1..Len(T) : OnPlane(r, T[i], o))
            \cup (IF r.cells # <<>> /\ o.nonint = 0 THEN
                     Clause("the area is not that of the boundary", SumArea(T, Len(T)) = BoundaryFacets(r, ins))
                     \cup Clause("the volume is not that of the union", SumVol(T, Len(T)) = Cardinality(ins))
                  ELSE {})

\* ------------------------------------------------------------ shells that are not complete
OpenBad(r, o) ==
    IF ~ Valid(o) THEN {}
    ELSE LET S == Shells(r) B == OutB(r, o) IN
         Clause("a point of a complete shell is lost", \A i \in 1..Len(r.q) : InSome(r, S, r.q[i]) => Wind(B, r.q[i]) = 1)
         \cup Clause("the result leaves the box of the input", o.far = 0)

\* ------------------------------------------------------------ how much may be added (rules proved of CellLabel)
\* areas are 600 times true ones; the shell lacks the triangles r.drop
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
GapBad(r, o) ==
    LET gone == {r.drop[i] + 1 : i \in 1..Len(r.drop)}
        kept == (1..Len(r.tris)) \ gone
        C == Coords(r.pts, r.tris)
        n == TLCEval([i \in 1..Len(C) |-> Normal(C[i])])
        area == TLCEval([i \in 1..Len(C) |-> Len300(n[i])])
        Same(i, j) == Crs(n[i], n[j]) = <<0, 0, 0>> /\ Dt(n[i], n[j]) > 0 /\ Dt(n[j], Sb(C[i][1], C[j][1])) = 0
        rep == TLCEval([i \in kept |-> CHOOSE j \in kept : Same(i, j) /\ \A x \in kept : Same(i, x) => j <= x])
        G == {rep[i] : i \in kept}
        have == TLCEval([g \in G |-> SumOver({i \in kept : rep[i] = g}, area)])
        T == OutTri(o)
        N == TLCEval([t \in 1..Len(T) |-> Normal(T[t])])
        In(t, g) == \A c \in 1..3 : 2 * Ab(Dt(n[g], [d \in 1..3 |-> T[t][c][d] - r.om * C[g][1][d]])) <= Ab(n[g][1]) + Ab(n[g][2]) + Ab(n[g][3]) + 1
        On(t, s) == {g \in G : s * Dt(N[t], n[g]) > 0 /\ In(t, g)}
        at == TLCEval([t \in 1..Len(T) |-> IF On(t, 1) # {} THEN CHOOSE g \in On(t, 1) : \A x \in On(t, 1) : g <= x
                                            ELSE IF On(t, -1) # {} THEN -(CHOOSE g \in On(t, -1) : \A x \in On(t, -1) : g <= x) ELSE 0])
        on(g, s) == LET p == TLCEval([t \in 1..Len(T) |-> Ab(Dt(N[t], n[g])) \div 8])      \* in units of 1/512 of |n|^2
                        q == SumOver({t \in 1..Len(T) : at[t] = s * g}, p) \div Dt(n[g], n[g])
                    IN (q * area[g]) \div 512
        right == TLCEval([g \in G |-> on(g, 1)])
        wrong == TLCEval([g \in G |-> on(g, -1)])
        low == TLCEval([t \in 1..Len(T) |-> Low300(N[t]) \div (r.om * r.om)])
        new == SumOver({t \in 1..Len(T) : at[t] = 0}, low) + SumOver(G, [g \in G |-> Mx(0, right[g] - have[g])])
        all == SumOver(kept, area)
        tol == all \div 25 + 10
        unused == SumOver(G, [g \in G |-> Mx(0, have[g] - right[g])])
    IN Clause("more surface is added than half of what is completed",
              2 * new + SumOver(G, wrong) <= SumOver(G, [g \in G |-> Mn(right[g], have[g])]) + tol)
       \cup (IF r.gap = "convex" THEN
                Clause("completing the convex shell would have cost less", 2 * new + unused <= 2 * SumOver(gone, area) + tol)
                \cup Clause("leaving the convex shell out would have cost less", 2 * new + unused <= all + tol)
             ELSE {})

\* ------------------------------------------------------------ one solid, several presentations
\* every run has its own probes (the images of the same points) and orientation sign
RunWind(r, x) == LET B == OutB(r, x.obs) IN TLCEval([i \in 1..Len(x.q) |-> Wind(B, x.q[i])])
SameBad(r) ==
    LET W == TLCEval([j \in 1..Len(r.runs) |-> RunWind(r, r.runs[j])])
    IN Clause("another presentation bounds another solid", \A j \in 2..Len(r.runs) : W[j] = W[1])

\* ------------------------------------------------------------ a result fed back
\* every pass is a closed surface on the planes of the first input; from the second on the
\* points given are rounded, so different points may round to the same one again
AgainBad(r, x) ==
    ClosedBad(IF x.back > 0 THEN r @@ [rough |-> 1] ELSE r, x.obs)
    \cup Clause("a point is enclosed other than once or not at all", LET W == RunWind(r, x) IN \A i \in 1..Len(x.q) : W[i] \in {0, 1})
    \cup (LET T == OutTri(x.obs) IN
          Clause("an output triangle lies on no input plane", \A i \in 1..Len(T) : OnPlane(x @@ [om |-> r.om, exact |-> FALSE], T[i], x.obs)))

Bad(r) ==
    IF What \in {"same", "back"} THEN
        LET bad == {r.runs[j].obs.crash : j \in 1..Len(r.runs)} \ {""}
        IN IF bad # {} THEN bad
           ELSE IF \E j \in 1..Len(r.runs) : ~ Valid(r.runs[j].obs) THEN {"a triangle names a missing point"}
           ELSE SameBad(r) \cup (IF What = "back" THEN UNION {AgainBad(r, r.runs[j]) : j \in 1..Len(r.runs)} ELSE {})
    ELSE IF r.obs.crash # "" THEN {r.obs.crash}
    ELSE LET o == r.obs IN
         CASE What = "closed" -> ClosedBad(r, o) \cup ZeroOneBad(r, o)
           [] What = "union" -> UnionBad(r, o)
           [] What = "both" -> ClosedBad(r, o) \cup ZeroOneBad(r, o) \cup UnionBad(r, o)
           [] What = "open" -> ClosedBad(r, o) \cup ZeroOneBad(r, o) \cup (IF r.exp = "union" THEN UnionBad(r, o) ELSE OpenBad(r, o))
                                 \cup (IF r.gap # "" /\ Valid(o) THEN GapBad(r, o) ELSE {})

TraceNext == CaseReturn(Bad(Trace[h]))
TraceSpec == CaseInit /\ [][TraceNext]_<<h, k>>
TraceDone == CaseDone
=============================================================================
