------------------------------ MODULE DivConq ------------------------------
(* Divide and conquer Delaunay triangulation.  Blocks of points, one entirely      *)
(* before the other by x and then y, or by y and then x, are merged in any order:   *)
(* the lower common tangent is the first cross edge; it rises to the next point of   *)
(* the left or the right block, whichever has the emptier circle, and edges of a     *)
(* block that are in its way are taken out first.  Ties go either way.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS W, H, N             \* N points of a W x H lattice; 0 for the sets named below
Lattice == (0..(W - 1)) \X (0..(H - 1))
Near == {<<0, 0>>, <<7, 0>>, <<14, 1>>, <<3, 2>>, <<10, 3>>, <<6, 7>>, <<7, 8>>}
Ring == {<<5, 0>>, <<4, 3>>, <<3, 4>>, <<0, 5>>, <<-3, 4>>, <<-5, 0>>, <<0, 0>>}
Sets == IF N > 0 THEN {S \in SUBSET Lattice : Cardinality(S) = N} ELSE {Near, Ring}
All == UNION Sets

Sg(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
Or(a, b, c) == Sg((b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1]))
Sq(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
Dt(a, b, d) == (a[1] - d[1]) * (b[2] - d[2]) - (a[2] - d[2]) * (b[1] - d[1])
In(a, b, c, d) == Sg(Sq(a, d) * Dt(b, c, d) - Sq(b, d) * Dt(a, c, d) + Sq(c, d) * Dt(a, b, d))
Dot(a, b, c) == (b[1] - a[1]) * (c[1] - a[1]) + (b[2] - a[2]) * (c[2] - a[2])
O == TLCEval([a \in All, b \in All, c \in All |-> Or(a, b, c)])
Between(a, b, c) == a # b /\ O[a, b, c] = 0 /\ Dot(c, a, b) < 0

VARIABLE blocks               \* disjoint blocks [p |-> points, e |-> edges]
Init == \E S \in Sets : blocks = {[p |-> {x}, e |-> {}] : x \in S}

LexX(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
\* a half turn more, so that the first block lies on the left looking along the cut
LexY(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ a[1] > b[1])
Before(A, B) == (\A a \in A.p, b \in B.p : LexX(a, b)) \/ (\A a \in A.p, b \in B.p : LexY(a, b))
\* no other block lies between them
Tangents(A, B) ==
    {t \in A.p \X B.p : /\ \A q \in A.p \cup B.p : O[t[1], t[2], q] >= 0
                        /\ \A q \in A.p \cup B.p : ~ Between(t[1], t[2], q)}

Above(E, l, r, v) == {c \in (UNION {e \in E : v \in e}) \ {l, r} : O[l, r, c] > 0}
\* the first neighbour of l counting counter-clockwise from r, the first of r counting clockwise from l
FirstL(C, l) == CHOOSE c \in C : \A d \in C \ {c} : O[l, c, d] > 0
FirstR(C, r) == CHOOSE c \in C : \A d \in C \ {c} : O[r, c, d] < 0
RECURSIVE ClearL(_, _, _, _), ClearR(_, _, _, _), Rise(_, _, _, _, _)
\* take out the edges that the next neighbour's circle rules out
ClearL(E, l, r, PL) ==
    LET C == Above(E, l, r, l) \cap PL IN
    IF Cardinality(C) < 2 THEN E
    ELSE LET c == FirstL(C, l) d == FirstL(C \ {c}, l) IN IF In(l, r, c, d) > 0 THEN ClearL(E \ {{l, c}}, l, r, PL) ELSE E
ClearR(E, l, r, PR) ==
    LET C == Above(E, l, r, r) \cap PR IN
    IF Cardinality(C) < 2 THEN E
    ELSE LET c == FirstR(C, r) d == FirstR(C \ {c}, r) IN IF In(l, r, c, d) > 0 THEN ClearR(E \ {{r, c}}, l, r, PR) ELSE E
\* all edge sets the merge can end with
Rise(E, l, r, PL, PR) ==
    LET F == TLCEval(ClearR(ClearL(E \cup {{l, r}}, l, r, PL), l, r, PR))
        CL == Above(F, l, r, l) \cap PL  CR == Above(F, l, r, r) \cap PR
    IN IF CL = {} /\ CR = {} THEN {F}
       ELSE LET s == IF CL = {} THEN -1 ELSE IF CR = {} THEN 1 ELSE -In(l, r, FirstL(CL, l), FirstR(CR, r))
            IN (IF s >= 0 THEN Rise(F, FirstL(CL, l), r, PL, PR) ELSE {}) \cup (IF s <= 0 THEN Rise(F, l, FirstR(CR, r), PL, PR) ELSE {})

Merge(A, B) ==
    /\ A # B /\ Before(A, B)
    /\ \E t \in Tangents(A, B) : \E E \in Rise(A.e \cup B.e, t[1], t[2], A.p, B.p) :
          blocks' = (blocks \ {A, B}) \cup {[p |-> A.p \cup B.p, e |-> E]}
Next == \E A, B \in blocks : Merge(A, B)
Spec == Init /\ [][Next]_blocks
\* every set of lattice points, printed for replay
GenInit == \E S \in SUBSET Lattice : blocks = {[p |-> S, e |-> {}]} /\ PrintT("GEN|" \o ToJson(S))
GenSpec == GenInit /\ [][UNCHANGED blocks]_blocks

\* ---------------------------------------------------------------- properties of every block
Crossing(e, f) == \E a, b \in e : \E c, d \in f : a # b /\ c # d /\ O[a, b, c] * O[a, b, d] < 0 /\ O[c, d, a] * O[c, d, b] < 0
Flat(B) == \A a, b, c \in B.p : O[a, b, c] = 0
\* points on the boundary of the hull
HullPts(B) == {q \in B.p : \E x \in B.p \ {q} : \A y \in B.p : O[q, x, y] >= 0}
Planar == \A B \in blocks : /\ \A e \in B.e : Cardinality(e) = 2 /\ e \subseteq B.p
                            /\ \A e, f \in B.e : ~ Crossing(e, f)
                            /\ \A e \in B.e : \A a, b \in e : \A q \in B.p : ~ Between(a, b, q)
Complete == \A B \in blocks : Cardinality(B.e) = (IF Flat(B) THEN Cardinality(B.p) - 1 ELSE 3 * Cardinality(B.p) - 3 - Cardinality(HullPts(B)))
Faces(B) == {t \in B.p \X B.p \X B.p : /\ O[t[1], t[2], t[3]] > 0
                                       /\ {t[1], t[2]} \in B.e /\ {t[2], t[3]} \in B.e /\ {t[3], t[1]} \in B.e
                                       /\ \A q \in B.p \ {t[1], t[2], t[3]} : ~ (O[t[1], t[2], q] >= 0 /\ O[t[2], t[3], q] >= 0 /\ O[t[3], t[1], q] >= 0)}
EmptyCircles == \A B \in blocks : \A t \in Faces(B) : \A q \in B.p \ {t[1], t[2], t[3]} : In(t[1], t[2], t[3], q) <= 0
\* there is one tangent, and some two blocks can be merged
OneTangent == \A A, B \in blocks : A # B /\ Before(A, B) => Cardinality(Tangents(A, B)) = 1
=============================================================================
