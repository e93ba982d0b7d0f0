------------------------------ MODULE DedupTrace ------------------------------
(* Recorded calls of duplicate removal.  Coordinates are integers in units of     *)
(* which the grid step r.g is a whole number (0: zero tolerance).  A coordinate    *)
(* may be nudged (r.nud, 1 or -1) to the next number up or down.                  *)
EXTENDS CaseTrace

N(r) == Len(r.pts)
O(r) == r.obs.out
SetOf(s) == {s[i] : i \in 1..Len(s)}
Same(r, i, j) == r.pts[i] = r.pts[j] /\ r.nud[i] = r.nud[j]
\* c is x, nudged by n, rounded to the grid (either way when exactly half-way)
Rounded(c, x, n, g) == /\ c % g = 0
                       /\ 2 * (c - x) <= g /\ (2 * (c - x) = g => n >= 0)
                       /\ 2 * (x - c) <= g /\ (2 * (x - c) = g => n <= 0)
ToGrid(p, n, q, g) == \A c \in 1..3 : Rounded(q[c], p[c], n[c], g)

Bad(r) ==
    IF r.obs.crash # "" THEN {r.obs.crash}
    ELSE IF r.obs.rem # 0 \/ r.obs.nonint # 0 THEN {"an output coordinate is not on the grid"}
    ELSE IF r.g = 0 THEN Clause("zero tolerance keeps every point", O(r) = r.pts /\ Len(r.obs.pmap) >= N(r) /\ \A i \in 1..N(r) : r.obs.pmap[i] = i - 1)
    ELSE IF Len(r.obs.pmap) # N(r) \/ \E i \in 1..N(r) : r.obs.pmap[i] + 1 \notin 1..Len(O(r)) THEN {"a point is mapped nowhere"}
    ELSE Clause("a point is not mapped to itself rounded", \A i \in 1..N(r) : ToGrid(r.pts[i], r.nud[i], O(r)[r.obs.pmap[i] + 1], r.g))
         \cup Clause("two output points are the same", Cardinality(SetOf(O(r))) = Len(O(r)))
         \cup Clause("an output point is not used", SetOf(r.obs.pmap) = 0..(Len(O(r)) - 1))
         \cup Clause("equal points are kept apart", \A i, j \in 1..N(r) : Same(r, i, j) => r.obs.pmap[i] = r.obs.pmap[j])

TraceNext == CaseReturn(Bad(Trace[h]))
TraceSpec == CaseInit /\ [][TraceNext]_<<h, k>>
TraceDone == CaseDone
=============================================================================
