------------------------------- MODULE PolyGen -------------------------------
(* Simple polygons with corners among given points, drawn corner by corner in     *)
(* counter-clockwise order from the corner of the smallest number.  A corner may   *)
(* be straight, and a side may pass through points that are no corners of it.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT P, Gen               \* a sequence of distinct integer pairs; Gen = 1: print the polygons for replay
ASSUME \A i, j \in 1..Len(P) : i # j => P[i] # P[j]
Pts == 1..Len(P)

Grid33 == <<<<0, 0>>, <<1, 0>>, <<2, 0>>, <<0, 1>>, <<1, 1>>, <<2, 1>>, <<0, 2>>, <<1, 2>>, <<2, 2>>>>
Grid42 == <<<<0, 0>>, <<1, 0>>, <<2, 0>>, <<3, 0>>, <<0, 1>>, <<1, 1>>, <<2, 1>>, <<3, 1>>>>
Grid43 == Grid42 \o <<<<0, 2>>, <<1, 2>>, <<2, 2>>, <<3, 2>>>>
\* two long rows close to each other, so that slanted segments cross many edges
Rows == <<<<0, 0>>, <<2, 0>>, <<4, 0>>, <<6, 0>>, <<8, 0>>, <<1, 1>>, <<3, 1>>, <<5, 1>>, <<7, 1>>>>
\* no four points on a circle, sharp triangles
Fan == <<<<0, 0>>, <<9, 1>>, <<8, 3>>, <<7, 4>>, <<5, 5>>, <<3, 7>>, <<1, 8>>, <<4, 3>>>>
\* points around two stars, whose edges a segment leaves and enters again
Stars == <<<<0, 0>>, <<12, 0>>, <<4, 3>>, <<8, 3>>, <<5, 1>>, <<7, -1>>, <<6, 6>>, <<6, -6>>>>
\* a corner of the strip met twice by one segment
Comb == <<<<0, 0>>, <<20, 1>>, <<10, 4>>, <<8, 2>>, <<12, 2>>, <<9, -1>>, <<11, -1>>, <<10, 1>>, <<10, -6>>>>

Sg(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
Or(a, b, c) == Sg((P[b][1] - P[a][1]) * (P[c][2] - P[a][2]) - (P[b][2] - P[a][2]) * (P[c][1] - P[a][1]))
Along(a, b, c) == (P[b][1] - P[a][1]) * (P[c][1] - P[a][1]) + (P[b][2] - P[a][2]) * (P[c][2] - P[a][2])
O == TLCEval([a \in Pts, b \in Pts, c \in Pts |-> Or(a, b, c)])
\* c between a and b, ends excluded
On == TLCEval([a \in Pts, b \in Pts, c \in Pts |-> a # b /\ O[a, b, c] = 0 /\ Along(c, a, b) < 0])
Meet(a, b, c, d) == \/ O[a, b, c] * O[a, b, d] < 0 /\ O[c, d, a] * O[c, d, b] < 0
                    \/ On[a, b, c] \/ On[a, b, d] \/ On[c, d, a] \/ On[c, d, b]

VARIABLES path, closed
Last == path[Len(path)]
\* the side from the last corner to q
Free(q) == /\ \A i \in 1..(Len(path) - 2) : ~ Meet(path[i], path[i + 1], Last, q)
           /\ Len(path) > 1 => ~ On[path[Len(path) - 1], Last, q] /\ ~ On[Last, q, path[Len(path) - 1]]
Twice == LET S[i \in 1..Len(path)] ==
                LET a == P[path[i]] b == P[path[(i % Len(path)) + 1]]
                IN a[1] * b[2] - a[2] * b[1] + (IF i = 1 THEN 0 ELSE S[i - 1])
         IN S[Len(path)]
Sides == [i \in 1..Len(path) |-> <<path[i], path[(i % Len(path)) + 1]>>]

PInit == path \in {<<s>> : s \in Pts} /\ closed = FALSE
Extend == /\ ~ closed
          /\ \E q \in Pts \ {path[i] : i \in 1..Len(path)} : q > path[1] /\ Free(q) /\ path' = Append(path, q)
          /\ UNCHANGED closed
Close == /\ ~ closed /\ Len(path) > 2
         /\ Free(path[1]) /\ ~ On[path[1], Last, path[2]] /\ ~ On[path[1], path[2], Last]
         /\ Twice > 0
         /\ closed' = TRUE /\ UNCHANGED path
         /\ Gen = 1 => PrintT("GEN|" \o ToJson(<<P, Sides>>))
PSpec == PInit /\ [][Extend \/ Close]_<<path, closed>>
=============================================================================
