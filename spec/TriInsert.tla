------------------------------ MODULE TriInsert ------------------------------
(* Segments are inserted into a Delaunay triangulation in any order as the code    *)
(* does it: walk round the origin to the triangle the segment leaves through, mark  *)
(* the edges it runs along, else turn the crossed edges about the origin by flips   *)
(* and repair the Delaunay property on both sides as soon as a part is done.  The   *)
(* segments bound a simple polygon; what lies beyond their right sides is dropped.  *)
(* A triangle has corners v, neighbours n across its three sides (a handle, or      *)
(* None on the hull) and marks m: 1 region on this side, 2 on the other, 0 none.    *)
EXTENDS PolyGen
CONSTANT AllStarts            \* 1: from every Delaunay triangulation, 0: from one
VARIABLES M, todo
vars == <<path, closed, M, todo>>

Nx(i) == (i % 3) + 1
Pv(i) == Nx(Nx(i))
None == <<0, 0>>
Next3(h) == <<h[1], Nx(h[2])>>
Prev3(h) == <<h[1], Pv(h[2])>>
Org(X, h) == X.v[h[1]][h[2]]
Dst(X, h) == X.v[h[1]][Nx(h[2])]
Apx(X, h) == X.v[h[1]][Pv(h[2])]
Sym(X, h) == X.n[h[1]][h[2]]
Mark(X, h) == X.m[h[1]][h[2]]
Must(h, what) == IF Assert(h # None, what) THEN h ELSE h
Onext(X, h) == Must(Sym(X, Prev3(h)), "turned left out of the hull")
Oprev(X, h) == Next3(Must(Sym(X, h), "turned right out of the hull"))
Twin(x) == 3 - x

SqD(a, b) == (P[a][1] - P[b][1]) * (P[a][1] - P[b][1]) + (P[a][2] - P[b][2]) * (P[a][2] - P[b][2])
Det2(a, b, d) == (P[a][1] - P[d][1]) * (P[b][2] - P[d][2]) - (P[a][2] - P[d][2]) * (P[b][1] - P[d][1])
In(a, b, c, d) == Sg(SqD(a, d) * Det2(b, c, d) - SqD(b, d) * Det2(a, c, d) + SqD(c, d) * Det2(a, b, d))
Inc == TLCEval([a \in Pts, b \in Pts, c \in Pts, d \in Pts |-> In(a, b, c, d)])

\* ---------------------------------------------------------------- the start: some Delaunay triangulation
\* ties are broken by lowering the points on the paraboloid, a smaller number by more
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o Sorted(S \ {m})
Parity(n) == IF n % 2 = 0 THEN 1 ELSE -1
Circ(A) == LET q == Sorted(A) s == Inc[q[1], q[2], q[3], q[4]]
           IN IF s # 0 THEN s ELSE IF O[q[2], q[3], q[4]] # 0 THEN -O[q[2], q[3], q[4]] ELSE O[q[1], q[3], q[4]]
OriS(t) == LET q == Sorted(t) IN O[q[1], q[2], q[3]]
InsideT(t, p) == OriS(t) * Circ(t \cup {p}) * Parity(Cardinality({x \in t : x > p})) > 0
Delaunay == TLCEval({t \in {A \in SUBSET Pts : Cardinality(A) = 3} : OriS(t) # 0 /\ \A p \in Pts \ t : ~ InsideT(t, p)})
\* all others: turn edges whose four points lie on a circle
Ties(D) == {y \in D \X D : LET t == y[1] u == y[2] IN Cardinality(t \cap u) = 2 /\ LET q == Sorted(t \cup u) IN Inc[q[1], q[2], q[3], q[4]] = 0}
Turned(D, x) == LET e == x[1] \cap x[2] d == (x[1] \cup x[2]) \ e IN (D \ {x[1], x[2]}) \cup {d \cup {v} : v \in e}
RECURSIVE Closure(_)
Closure(S) == LET N == UNION {{Turned(D, x) : x \in Ties(D)} : D \in S} \ S IN IF N = {} THEN S ELSE Closure(S \cup N)
\* numbered triangles, corners to the left
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Numbered(D) ==
    LET V == SeqOf({LET q == Sorted(t) IN IF OriS(t) > 0 THEN q ELSE <<q[1], q[3], q[2]>> : t \in D})
        At(a, b) == LET S == {h \in (1..Len(V)) \X (1..3) : V[h[1]][h[2]] = a /\ V[h[1]][Nx(h[2])] = b}
                    IN IF S = {} THEN None ELSE CHOOSE h \in S : TRUE
    IN [v |-> V,
        n |-> [t \in 1..Len(V) |-> [i \in 1..3 |-> At(V[t][Nx(i)], V[t][i])]],
        m |-> [t \in 1..Len(V) |-> <<0, 0, 0>>]]
Start0 == TLCEval(Numbered(Delaunay))
Starts == TLCEval(IF AllStarts = 1 THEN {Numbered(D) : D \in Closure({Delaunay})} ELSE {Start0})

\* ---------------------------------------------------------------- the steps of the code
SetMark(X, h, x) ==
    LET s == Sym(X, h) Y == [X EXCEPT !.m[h[1]][h[2]] = x]
    IN IF s = None THEN Y ELSE [Y EXCEPT !.m[s[1]][s[2]] = Twin(x)]

Bond(X, h, g) == LET Y == [X EXCEPT !.n[h[1]][h[2]] = g] IN IF g = None THEN Y ELSE [Y EXCEPT !.n[g[1]][g[2]] = h]

\* turn the edge h of its quadrilateral one quarter to the left
Flip(X, h) ==
    LET top == Must(Sym(X, h), "flipped an edge of the hull")
        right == Org(X, h) left == Dst(X, h) bot == Apx(X, h) far == Apx(X, top)
        tl == Prev3(top) tr == Next3(top) bl == Next3(h) br == Prev3(h)
        tlc == Sym(X, tl) trc == Sym(X, tr) blc == Sym(X, bl) brc == Sym(X, br)
        tlm == Mark(X, tl) trm == Mark(X, tr) blm == Mark(X, bl) brm == Mark(X, br)
        A == Bond(Bond(Bond(Bond(X, tl, blc), bl, brc), br, trc), tr, tlc)
        B == [A EXCEPT !.m[tr[1]][tr[2]] = tlm, !.m[br[1]][br[2]] = trm, !.m[tl[1]][tl[2]] = blm, !.m[bl[1]][bl[2]] = brm]
    IN [B EXCEPT !.v[h[1]] = [i \in 1..3 |-> IF i = h[2] THEN far ELSE IF i = Nx(h[2]) THEN bot ELSE right],
                 !.v[top[1]] = [i \in 1..3 |-> IF i = top[2] THEN bot ELSE IF i = Nx(top[2]) THEN far ELSE left]]

RECURSIVE TurnLeft(_, _, _), TurnRight(_, _, _)
TurnLeft(X, h, q) == LET g == Onext(X, h) IN IF O[q, Org(X, h), Apx(X, g)] > 0 THEN TurnLeft(X, g, q) ELSE g
TurnRight(X, h, q) == LET g == Oprev(X, h) IN IF O[Org(X, h), q, Dst(X, g)] > 0 THEN TurnRight(X, g, q) ELSE g
\* the triangle at the origin of h through which the way to q starts
Direction(X, h, q) ==
    LET s == Org(X, h)
        l == O[q, s, Apx(X, h)] > 0
        r == O[s, q, Dst(X, h)] > 0
        hull == Sym(X, Prev3(h)) = None
        a == IF l /\ ~ (r /\ hull) THEN TurnLeft(X, h, q) ELSE h
    IN IF r /\ ~ (l /\ ~ hull) THEN TurnRight(X, a, q) ELSE a

RECURSIVE Scout(_, _, _, _)
Scout(X, h0, q, x) ==
    LET h == Direction(X, h0, q) r == Dst(X, h) l == Apx(X, h) IN
    IF l = q THEN [M |-> SetMark(X, Prev3(h), Twin(x)), h |-> Prev3(h), found |-> TRUE]
    ELSE IF r = q THEN [M |-> SetMark(X, h, x), h |-> h, found |-> TRUE]
    ELSE IF O[q, Org(X, h), l] = 0 THEN Scout(SetMark(X, Prev3(h), Twin(x)), Prev3(h), q, x)
    ELSE IF O[Org(X, h), q, r] = 0 THEN Scout(SetMark(X, h, x), Next3(h), q, x)
    ELSE [M |-> X, h |-> h, found |-> FALSE]

RECURSIVE Fixup(_, _, _)
Fixup(X, h, onLeft) ==
    LET near == Next3(h) far == Sym(X, near) IN
    IF far = None THEN [M |-> X, h |-> h]
    ELSE IF Mark(X, near) # 0 THEN [M |-> X, h |-> h]
    ELSE LET a == Apx(X, near) l == Org(X, near) r == Dst(X, near) f == Apx(X, far) IN
         IF onLeft /\ O[a, l, f] <= 0 THEN [M |-> X, h |-> h]
         ELSE IF ~ onLeft /\ O[f, r, a] <= 0 THEN [M |-> X, h |-> h]
         ELSE IF O[r, l, f] > 0 /\ Inc[l, f, r, a] <= 0 THEN [M |-> X, h |-> h]
         ELSE LET A == Fixup(Flip(X, near), Prev3(h), onLeft)
                  B == Fixup(A.M, far, onLeft)
              IN [M |-> B.M, h |-> A.h]

RECURSIVE Constrain(_, _, _, _), Cross(_, _, _, _, _)
Constrain(X, h, q, x) == Cross(Flip(X, Next3(h)), Next3(h), Org(X, h), q, x)
\* fix runs from the vertex reached to the origin e of the segment
Cross(X, fix, e, q, x) ==
    LET far == Org(X, fix) side == O[e, q, far] IN
    IF far = q \/ side = 0 THEN
        LET A == Fixup(X, fix, FALSE)
            B == Fixup(A.M, Oprev(X, fix), TRUE)
            C == SetMark(B.M, A.h, IF Dst(B.M, A.h) = e THEN Twin(x) ELSE x)
        IN IF far = q THEN C
           ELSE LET S == Scout(C, A.h, q, x) IN IF S.found THEN S.M ELSE Constrain(S.M, S.h, q, x)
    ELSE IF side > 0 THEN
        LET A == Fixup(X, Oprev(X, fix), TRUE) g == Prev3(fix) IN Cross(Flip(A.M, g), g, e, q, x)
    ELSE
        LET A == Fixup(X, fix, FALSE) g == Oprev(A.M, A.h) IN Cross(Flip(A.M, g), g, e, q, x)

Handles(X) == (1..Len(X.v)) \X (1..3)
From(X, a) == {h \in Handles(X) : Org(X, h) = a}
\* the search starts at any triangle of the vertex
Insertion(X, s) ==
    {LET A == Scout(X, h, s[2], 1) IN
     IF A.found THEN A.M
     ELSE LET a == Org(A.M, A.h) B == Scout(A.M, g, a, 2)
          IN IF B.found THEN B.M ELSE Constrain(B.M, A.h, Org(B.M, B.h), 1)
     : h \in From(X, s[1]), g \in From(X, s[2])}

Init == PInit /\ M \in Starts /\ todo = {}
Draw == /\ (Extend /\ todo' = {}) \/ (Close /\ todo' = {Sides[i] : i \in 1..Len(Sides)})
        /\ UNCHANGED M
Insert(s) == /\ closed /\ s \in todo
             /\ todo' = todo \ {s} /\ M' \in Insertion(M, s)
             /\ UNCHANGED <<path, closed>>
Next == Draw \/ \E s \in todo : Insert(s)
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- properties
Linked == \A h \in Handles(M) : LET s == Sym(M, h) IN
    s # None => Sym(M, s) = h /\ Org(M, s) = Dst(M, h) /\ Dst(M, s) = Org(M, h) /\ Mark(M, s) = (IF Mark(M, h) = 0 THEN 0 ELSE Twin(Mark(M, h)))
Left == \A h \in Handles(M) : O[Org(M, h), Dst(M, h), Apx(M, h)] > 0
Same == Len(M.v) = Len(Start0.v) /\ Cardinality({<<Org(M, h), Dst(M, h)>> : h \in Handles(M)}) = 3 * Len(M.v)
        /\ {<<Org(M, h), Dst(M, h)>> : h \in {g \in Handles(M) : Sym(M, g) = None}}
           = {<<Org(Start0, h), Dst(Start0, h)>> : h \in {g \in Handles(Start0) : Sym(Start0, g) = None}}
\* the parts of a segment between the points on it
Parts(s) ==
    LET S == {s[1], s[2]} \cup {p \in Pts : On[s[1], s[2], p]}
        Before(a, b) == Along(s[1], s[2], a) < Along(s[1], s[2], b)
    IN {e \in S \X S : Before(e[1], e[2]) /\ ~ \E c \in S : On[e[1], e[2], c]}
Given == IF closed THEN UNION {Parts(Sides[i]) : i \in {j \in 1..Len(Sides) : Sides[j] \notin todo}} ELSE {}
\* exactly the segments inserted so far are marked, on the right side
Kept == {<<Org(M, h), Dst(M, h)>> : h \in {g \in Handles(M) : Mark(M, g) = 1}}
           \cup {<<Dst(M, h), Org(M, h)>> : h \in {g \in Handles(M) : Mark(M, g) = 2}} = Given
\* no edge that is not part of a segment could be improved by a flip: constrained Delaunay
BestEdges == \A h \in Handles(M) : LET s == Sym(M, h) IN
    s # None /\ Mark(M, h) = 0 => Inc[Org(M, h), Dst(M, h), Apx(M, h), Apx(M, s)] <= 0

RECURSIVE Reach(_)
Reach(S) ==
    LET N == {Sym(M, h)[1] : h \in {g \in S \X (1..3) : Mark(M, g) = 0 /\ Sym(M, g) # None}} \ S
    IN IF N = {} THEN S ELSE Reach(S \cup N)
Region == {t \in 1..Len(M.v) : LET R == Reach({t}) IN \E h \in R \X (1..3) : Mark(M, h) = 1}
\* whichever mark of a part is met first decides the same, and the parts kept fill the polygon
Fills == closed /\ todo = {} =>
    /\ \A t \in 1..Len(M.v) : LET K == {Mark(M, h) : h \in Reach({t}) \X (1..3)} \ {0} IN Cardinality(K) = 1
    /\ LET E == {<<Org(M, h), Dst(M, h)>> : h \in Region \X (1..3)}
       IN {e \in E : <<e[2], e[1]>> \notin E} = Given
=============================================================================
