--------------------------------- MODULE Solid ---------------------------------
(* Triangle surfaces over integer points: balance of directed edges, winding     *)
(* numbers by a vertical ray (ties broken by moving the point infinitesimally),   *)
(* regions as unions of what closed shells enclose.                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Sg(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
Ab(n) == IF n < 0 THEN -n ELSE n
Mn(a, b) == IF a <= b THEN a ELSE b
Mx(a, b) == IF a >= b THEN a ELSE b
Sb(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Crs(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Dt(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Normal(t) == Crs(Sb(t[2], t[1]), Sb(t[3], t[1]))

(* a surface is a sequence of triangles of points; with each triangle its box     *)
Boxed(T) == TLCEval([i \in 1..Len(T) |-> LET a == T[i][1] b == T[i][2] c == T[i][3] IN
    <<a, b, c, Mn(a[1], Mn(b[1], c[1])), Mx(a[1], Mx(b[1], c[1])),
               Mn(a[2], Mn(b[2], c[2])), Mx(a[2], Mx(b[2], c[2])), Mx(a[3], Mx(b[3], c[3])), TLCEval(Normal(T[i]))>>])

\* side of the origin with respect to the projected edge u v, the origin moved by (e, e^2)
EdgeSide(u, v) ==
    LET d == u[1] * v[2] - u[2] * v[1] IN
    IF d # 0 THEN Sg(d) ELSE IF v[2] # u[2] THEN -Sg(v[2] - u[2]) ELSE Sg(v[1] - u[1])

\* contribution of a boxed triangle to the winding number around q
Crossing(t, q) ==
    IF q[1] < t[4] \/ q[1] > t[5] \/ q[2] < t[6] \/ q[2] > t[7] \/ q[3] > t[8] THEN 0
    ELSE LET a == Sb(t[1], q) b == Sb(t[2], q) c == Sb(t[3], q)
             s == EdgeSide(a, b)
         IN IF s = 0 \/ EdgeSide(b, c) # s \/ EdgeSide(c, a) # s THEN 0
            ELSE IF Sg(Dt(t[9], a)) = s THEN s ELSE 0

RECURSIVE WindFrom(_, _, _)
WindFrom(B, q, i) == IF i = 0 THEN 0 ELSE Crossing(B[i], q) + WindFrom(B, q, i - 1)
Wind(B, q) == WindFrom(B, q, Len(B))          \* B boxed, q on none of its triangles

\* q is clear of the planes of the surface by more than the margin m (sum norm of the normal as unit)
Clear(B, q, m) == \A i \in 1..Len(B) : LET n == B[i][9] IN Ab(Dt(n, Sb(B[i][1], q))) > m * (Ab(n[1]) + Ab(n[2]) + Ab(n[3]))

---------------------------------------------------------------------------
(* lengths of vectors: 300 times the length of a short one, rounded down, and a    *)
(* lower bound for a long one (its largest projection on a few directions)         *)
RECURSIVE RootFrom(_, _, _)
RootFrom(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN RootFrom(n, m, hi) ELSE RootFrom(n, lo, m - 1)
Root(n) == RootFrom(n, 0, 46000)
Len300(v) == Root(90000 * Dt(v, v))
Low300(v) == LET x == Ab(v[1]) y == Ab(v[2]) z == Ab(v[3])
                 a == Mx(x, Mx(y, z)) c == Mn(x, Mn(y, z)) b == x + y + z - a - c
             IN Mx(Mx(Mx(300 * a, 212 * (a + b)), Mx(173 * (a + b + c), 268 * a + 134 * b)), Mx(244 * a + 122 * (b + c), 200 * (a + b) + 100 * c))

---------------------------------------------------------------------------
(* surfaces given by indices                                                     *)
DirEdges(T) == TLCEval({<<T[i][1], T[i][2]>> : i \in 1..Len(T)} \cup {<<T[i][2], T[i][3]>> : i \in 1..Len(T)} \cup {<<T[i][3], T[i][1]>> : i \in 1..Len(T)})
UsesOf(T, a, b) == Cardinality({i \in 1..Len(T) : \E c \in 1..3 : T[i][c] = a /\ T[i][(c % 3) + 1] = b})
Balanced(T) ==
    LET E == DirEdges(T) IN
    IF Cardinality(E) = 3 * Len(T) THEN \A e \in E : <<e[2], e[1]>> \in E
    ELSE \A e \in E : UsesOf(T, e[1], e[2]) = UsesOf(T, e[2], e[1])
ThreeCorners(T) == \A i \in 1..Len(T) : T[i][1] # T[i][2] /\ T[i][2] # T[i][3] /\ T[i][3] # T[i][1]
NoTwice(T) == Cardinality({{T[i][1], T[i][2], T[i][3]} : i \in 1..Len(T)}) = Len(T)

\* the coordinates of a sequence of triangles of indices (from 0)
Coords(P, T) == TLCEval([i \in 1..Len(T) |-> <<P[T[i][1] + 1], P[T[i][2] + 1], P[T[i][3] + 1]>>])
Scaled(T, m) == TLCEval([i \in 1..Len(T) |-> [c \in 1..3 |-> <<m * T[i][c][1], m * T[i][c][2], m * T[i][c][3]>>]])
=============================================================================
