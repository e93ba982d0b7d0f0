-------------------------------- MODULE Tiling --------------------------------
(* When do oriented triangles tile a planar region exactly?  Write the boundary   *)
(* of the region as a set of directed edges B (subdivided at every given point)   *)
(* with the region on the left.  If all triangles turn to the left, no directed   *)
(* edge occurs twice, and the directed edges without an opposite are exactly B,   *)
(* then the number of triangles over a point off the edges equals the winding     *)
(* number of B around it: one inside the region, none outside.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Slots(T) == {<<t, i>> : t \in 1..Len(T), i \in 1..3}
EdgeAt(T, s) == <<T[s[1]][s[2]], T[s[1]][(s[2] % 3) + 1]>>
Edges(T) == TLCEval({EdgeAt(T, s) : s \in Slots(T)})
EdgesOnce(T) == Cardinality(Edges(T)) = 3 * Len(T)
Rim(T) == LET E == Edges(T) IN {e \in E : <<e[2], e[1]>> \notin E}
ValidIdx(T, n) == \A t \in 1..Len(T) : \A i \in 1..3 : T[t][i] \in 0..(n - 1)

\* the elementary edges along a line through the points S, Before(i, j): i comes before j
Elementary(S, Before(_, _)) ==
    {e \in S \X S : /\ Before(e[1], e[2])
                    /\ \A m \in S : ~ (Before(e[1], m) /\ Before(m, e[2]))}
=============================================================================
