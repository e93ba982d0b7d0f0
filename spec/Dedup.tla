-------------------------------- MODULE Dedup --------------------------------
(* Duplicate removal: round every point to a grid, sort the rounded points and    *)
(* walk along them, opening an output point at every change.                      *)
(* Design question: does the walk merge exactly the points that round together?   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS N,        \* number of points
          Vals,     \* coordinate values in tenths of a grid step (two coordinates are enough)
          G         \* grid step

Round(x) == LET a == IF x < 0 THEN -x ELSE x
                r == G * ((2 * a + G) \div (2 * G))      \* half away from zero
            IN IF x < 0 THEN -r ELSE r
RoundP(p) == <<Round(p[1]), Round(p[2])>>
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])

ValsA == {-6, -5, 4, 5, 6, 10}
ValsB == {-15, -6, -5, 0, 4, 5, 6, 10}

VARIABLES pts,      \* the input
          order,    \* indices sorted by rounded point
          at,       \* how many of them have been walked over
          pmap, out
vars == <<pts, order, at, pmap, out>>

Perms == {f \in [1..N -> 1..N] : \A i, j \in 1..N : i # j => f[i] # f[j]}
Init ==
    /\ pts \in [1..N -> Vals \X Vals]
    /\ order \in {f \in Perms : \A i \in 1..(N - 1) : ~ Less(RoundP(pts[f[i + 1]]), RoundP(pts[f[i]]))}   \* any stable or unstable sort
    /\ at = 0 /\ pmap = [i \in 1..N |-> 0] /\ out = <<>>

Walk ==
    /\ at < N
    /\ at' = at + 1
    /\ LET i == order[at + 1]
           same == at > 0 /\ RoundP(pts[i]) = RoundP(pts[order[at]])
       IN /\ out' = IF same THEN out ELSE Append(out, RoundP(pts[i]))
          /\ pmap' = [pmap EXCEPT ![i] = IF same THEN Len(out) ELSE Len(out) + 1]
    /\ UNCHANGED <<pts, order>>
Next == Walk
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOk == at \in 0..N /\ \A i \in 1..N : pmap[i] \in 0..Len(out)
SoFar == \A a \in 1..at : out[pmap[order[a]]] = RoundP(pts[order[a]])
Kernel == at = N => \A i, j \in 1..N : pmap[i] = pmap[j] <=> RoundP(pts[i]) = RoundP(pts[j])
Distinct == \A a, b \in 1..Len(out) : a # b => out[a] # out[b]
AllUsed == at = N => \A a \in 1..Len(out) : \E i \in 1..N : pmap[i] = a
Halts == <>(at = N)
=============================================================================
