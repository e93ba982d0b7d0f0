------------------------------ MODULE CellLabel ------------------------------
(* How the cells of the arrangement are told inside from outside, for one shell.   *)
(* Cells are the unit squares of a grid and the unbounded outside; a wall between  *)
(* two cells may be covered by the shell, oriented away from one of them.  A       *)
(* labelling pays the length of every uncovered wall between an inside and an      *)
(* outside cell, and half the length of a covered wall for each of its two sides   *)
(* that carries the wrong label; the code finds a cheapest labelling by a minimum  *)
(* cut (PushRelabel).  The shell is laid wall by wall, in every possible way.      *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS NX, NY, LenX, LenY      \* LenX, LenY: length of a wall along x, along y

ASSUME NX \in Nat \ {0} /\ NY \in Nat \ {0} /\ LenX \in Nat \ {0} /\ LenY \in Nat \ {0}
Cells == (1..NX) \X (1..NY)
Out == <<0, 0>>
At(x, y) == IF <<x, y>> \in Cells THEN <<x, y>> ELSE Out
\* walls: across x (between (x,y) and (x+1,y)), and across y
WallSet == {<<"x", x, y>> : x \in 0..NX, y \in 1..NY} \cup {<<"y", x, y>> : x \in 1..NX, y \in 0..NY}
Lo(w) == At(w[2], w[3])
Hi(w) == IF w[1] = "x" THEN At(w[2] + 1, w[3]) ELSE At(w[2], w[3] + 1)
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET w == CHOOSE w \in S : TRUE IN <<w>> \o Listed(S \ {w})
Walls == TLCEval(Listed(WallSet))
N == Len(Walls)
AlongX == TLCEval({i \in 1..N : Walls[i][1] = "y"})
Length(S) == LET h == Cardinality(S \cap AlongX) IN h * LenX + (Cardinality(S) - h) * LenY      \* of a set of walls (numbers)

VARIABLES shell,       \* the walls decided so far: 0 not covered, 1 lower cell inside, -1 upper cell inside
          best         \* the cheapest labellings, once the shell is laid
vars == <<shell, best>>
Init == shell = <<>> /\ best = {}
Lay == Len(shell) < N /\ (\E v \in {-1, 0, 1} : shell' = Append(shell, v)) /\ UNCHANGED best

TypeOk == Len(shell) <= N /\ (\A i \in 1..Len(shell) : shell[i] \in {-1, 0, 1}) /\ best \subseteq SUBSET Cells

\* ---------------------------------------------------------------- cost of a labelling
Inside(L, i) == Lo(Walls[i]) \in L
Beyond(L, i) == Hi(Walls[i]) \in L
Labels == SUBSET Cells
SplitOf == TLCEval([L \in Labels |-> {i \in 1..N : Inside(L, i) # Beyond(L, i)}])
Split(L) == SplitOf[L]
RimWalls == TLCEval({i \in 1..N : Lo(Walls[i]) = Out \/ Hi(Walls[i]) = Out})
Covered == {i \in 1..N : shell[i] # 0}
\* walls of the boundary of L that lie on the shell, facing as the shell does; facing the other way; not on it
Right(L) == {i \in Split(L) \cap Covered : Inside(L, i) = (shell[i] = 1)}
Wrong(L) == (Split(L) \cap Covered) \ Right(L)
New(L) == Split(L) \ Covered
Unused(L) == Covered \ Split(L)
\* on the rim of the arrangement only the inner side pays
Rim(i) == i \in RimWalls
Cost2(L) == 2 * Length(New(L)) + Length({i \in Unused(L) : ~ Rim(i) \/ ((shell[i] = 1) = (Hi(Walls[i]) = Out))})
            + Length(Wrong(L)) + Length({i \in Wrong(L) : ~ Rim(i)})
Best == LET K == {Cost2(L) : L \in Labels} m == CHOOSE c \in K : \A d \in K : c <= d IN {L \in Labels : Cost2(L) = m}

Label == Len(shell) = N /\ best = {} /\ best' = Best /\ UNCHANGED shell
Next == Lay \/ Label
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- what follows
Bounds(L) == Covered = Split(L) /\ Wrong(L) = {}        \* the shell is the whole boundary of L
Sealed(L) == Split(L) \subseteq Covered /\ Split(L) = Right(L)
InnerWalls(L) == {i \in 1..N : Inside(L, i) /\ Beyond(L, i)}
\* a straight line of walls
Straight(S) == \E d \in {"x", "y"} : \E c \in 0..(NX + NY) : \A i \in S : Walls[i][1] = d /\ Walls[i][IF d = "x" THEN 2 ELSE 3] = c
Box(L) == \E x1, x2 \in 1..NX, y1, y2 \in 1..NY : L = {c \in Cells : c[1] \in x1..x2 /\ c[2] \in y1..y2}

\* a complete shell encloses exactly its inside
Complete(B) == \A L \in Labels : Bounds(L) => B = {L}
\* walls on one line beside a complete shell, or alone, add nothing
FlatAddsNothing(B) == \A L \in Labels : (Sealed(L) /\ Straight(Covered \ Split(L))) => B = {L}
\* what a complete part seals off stays inside whatever lies outside of it
SealedStays(B) == \A L \in Labels : (Sealed(L) /\ InnerWalls(L) \cap Covered = {}) => \A K \in B : L \subseteq K
\* the surface that closes the shell is at most half of what it completes, in every part of the result
Apart(K, L) == \A i \in 1..N : ~ (Lo(Walls[i]) \in K /\ Hi(Walls[i]) \in L) /\ ~ (Lo(Walls[i]) \in L /\ Hi(Walls[i]) \in K)
HalfOf(K) == 2 * Length(New(K)) + Length(Wrong(K)) <= Length(Right(K))
HalfRule(B) == \A L \in B : \A K \in SUBSET L : (K # {} /\ Apart(K, L \ K)) => HalfOf(K)
\* a box that lacks some walls: never worse than completing it, never worse than nothing
ConvexRule(B) == \A L \in Labels : (L # {} /\ Box(L) /\ Covered \subseteq Split(L) /\ Wrong(L) = {}) =>
    \A K \in B : 2 * Length(New(K)) + Length(Unused(K)) <= 2 * Length(Split(L) \ Covered)
                 /\ 2 * Length(New(K)) + Length(Unused(K)) <= Length(Covered)

Rules == best # {} => Complete(best) /\ FlatAddsNothing(best) /\ SealedStays(best) /\ HalfRule(best) /\ ConvexRule(best)
=============================================================================
