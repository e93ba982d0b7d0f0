------------------------------ MODULE ManyTrace ------------------------------
(* Recorded Delaunay triangulations of many points, coordinates arbitrary        *)
(* integers.                                                                      *)
EXTENDS CaseTrace, BigGeo, Tiling

Pt(r, i) == r.pts[i + 1]
Idx(r) == 0..(Len(r.pts) - 1)
Left(r, T) == \A t \in 1..Len(T) : HSign(Orient2(Pt(r, T[t][1]), Pt(r, T[t][2]), Pt(r, T[t][3]))) > 0
\* nb[t][i] names the triangle across side i (-1: none), as evidence that is checked.
\* Triangles to the left, no edge twice, and a rim that is one convex polygon: they tile the hull.
\* All sides locally Delaunay: the tiling is Delaunay (Delaunay's lemma).
SideRim(T, nb) == TLCEval({EdgeAt(T, s) : s \in {x \in Slots(T) : nb[x[1]][x[2]] = -1}})
Across(T, nb, s) ==
    LET u == nb[s[1]][s[2]] + 1 e == EdgeAt(T, s)
    IN u \in 1..Len(T) /\ \E i \in 1..3 : EdgeAt(T, <<u, i>>) = <<e[2], e[1]>>
Beyond(T, nb, s) == LET u == nb[s[1]][s[2]] + 1 e == EdgeAt(T, s) IN CHOOSE c \in {T[u][i] : i \in 1..3} : c # e[1] /\ c # e[2]
ManyBad(r) ==
    LET T == r.obs.tris nb == r.nb IN
    IF ~ ValidIdx(T, Len(r.pts)) \/ r.obs.rem # 0 THEN {"bad index"}
    ELSE IF ~ Left(r, T) THEN {"a triangle is degenerate or clockwise"}
    ELSE LET R == SideRim(T, nb) S == TLCEval({x \in Slots(T) : nb[x[1]][x[2]] # -1}) IN
         Clause("a point is not used", {T[t][i] : t \in 1..Len(T), i \in 1..3} = Idx(r))
         \cup Clause("triangles overlap", EdgesOnce(T))
         \cup Clause("the hull is not covered",
                     /\ R # {} /\ Cardinality({e[1] : e \in R}) = Cardinality(R) /\ {e[1] : e \in R} = {e[2] : e \in R}
                     /\ \A e \in R : \A f \in R : HSign(Orient2(Pt(r, e[1]), Pt(r, e[2]), Pt(r, f[1]))) >= 0)
         \cup (IF ~ Assert(\A x \in S : Across(T, nb, x), <<"evidence", r.id>>) THEN {} ELSE
              Clause("a point lies inside a circumcircle",
                     \A x \in S : HSign(InCircle(Pt(r, T[x[1]][1]), Pt(r, T[x[1]][2]), Pt(r, T[x[1]][3]), Pt(r, Beyond(T, nb, x)))) <= 0))

Bad(r) == IF r.obs.crash # "" THEN {r.obs.crash} ELSE ManyBad(r)

TraceNext == CaseReturn(Bad(Trace[h]))
TraceSpec == CaseInit /\ [][TraceNext]_<<h, k>>
TraceDone == CaseDone
=============================================================================
