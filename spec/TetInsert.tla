------------------------------ MODULE TetInsert ------------------------------
(* Incremental Delaunay tetrahedralization as the code performs it: the points are *)
(* inserted in any order; the tetrahedra in conflict with the new point, grown     *)
(* over face neighbours from the place where it lies, are replaced by the cone of  *)
(* the cavity's boundary.  Ties of the sphere test are broken by lowering the      *)
(* points on the paraboloid, a smaller number by more.  Tetrahedra are sets of     *)
(* four points; 0 is the point at infinity that closes the hull (ghosts).          *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANT P                    \* the points, a sequence of distinct integer triples
ASSUME \A i, j \in 1..Len(P) : i # j => P[i] # P[j]
Pts == 1..Len(P)

Cube == <<<<0, 0, 0>>, <<1, 1, 1>>, <<1, 0, 0>>, <<0, 1, 1>>, <<0, 1, 0>>, <<1, 0, 1>>, <<1, 1, 0>>, <<0, 0, 1>>>>
Centred == <<<<2, 2, 2>>, <<0, 0, 0>>, <<2, 0, 0>>, <<1, 1, 1>>, <<0, 2, 0>>, <<0, 0, 2>>, <<2, 2, 0>>, <<1, 1, 0>>, <<1, 0, 0>>>>
Flat == <<<<0, 0, 0>>, <<2, 0, 0>>, <<1, 0, 0>>, <<0, 2, 0>>, <<1, 1, 0>>, <<2, 2, 0>>, <<0, 1, 0>>, <<1, 1, 1>>, <<1, 1, 2>>>>
Octa == <<<<1, 0, 0>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<0, -1, 0>>, <<0, 0, 1>>, <<0, 0, -1>>, <<0, 0, 0>>, <<2, 0, 0>>, <<0, 0, -2>>, <<1, 1, 1>>>>
Lattice == <<<<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>, <<0, 1, 0>>, <<1, 1, 0>>, <<2, 1, 0>>, <<0, 0, 1>>, <<1, 0, 1>>, <<2, 0, 1>>, <<0, 1, 1>>, <<1, 1, 1>>, <<2, 1, 1>>>>
Big == Lattice \o <<<<0, 2, 0>>, <<1, 2, 1>>>>

Sg(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
Df(a, b) == <<P[a][1] - P[b][1], P[a][2] - P[b][2], P[a][3] - P[b][3]>>
D3(u, v, w) == u[1] * (v[2] * w[3] - v[3] * w[2]) - u[2] * (v[1] * w[3] - v[3] * w[1]) + u[3] * (v[1] * w[2] - v[2] * w[1])
Q(u) == u[1] * u[1] + u[2] * u[2] + u[3] * u[3]
O(a, b, c, d) == Sg(D3(Df(a, d), Df(b, d), Df(c, d)))
InDet(a, b, c, d, e) ==
    LET u == Df(a, e) v == Df(b, e) w == Df(c, e) x == Df(d, e)
    IN Sg(-Q(u) * D3(v, w, x) + Q(v) * D3(u, w, x) - Q(w) * D3(u, v, x) + Q(x) * D3(u, v, w))

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o Sorted(S \ {m})
Sets(S, n) == {A \in SUBSET S : Cardinality(A) = n}
\* tables over sorted sets of points
Ori == TLCEval([A \in Sets(Pts, 4) |-> LET q == Sorted(A) IN O(q[1], q[2], q[3], q[4])])
Sph == TLCEval([A \in Sets(Pts, 5) |-> LET q == Sorted(A) s == InDet(q[1], q[2], q[3], q[4], q[5]) o == O(q[2], q[3], q[4], q[5])
                                       IN IF s # 0 THEN s ELSE IF o # 0 THEN o ELSE -O(q[1], q[3], q[4], q[5])])
Parity(n) == IF n % 2 = 0 THEN 1 ELSE -1
\* point p lies inside the (perturbed) sphere of the tetrahedron t
Inside(t, p) == Ori[t] * Sph[t \cup {p}] * Parity(Cardinality({x \in t : x > p})) > 0
\* side of p with respect to the triangle f, compared between two points
Side(f, p) == Ori[f \cup {p}] * Parity(Cardinality({x \in f : x > p}))
Opposite(f, p, q) == Side(f, p) * Side(f, q) < 0

VARIABLES done,      \* points inserted
          T          \* tetrahedra and ghosts
vars == <<done, T>>
Real == {t \in T : 0 \notin t}
Ghost == T \ Real
Facets(t) == {t \ {v} : v \in t}
Across(t, f) == CHOOSE n \in T : n # t /\ f \subseteq n

Init == \E t \in Sets(Pts, 4) : Ori[t] # 0 /\ done = t /\ T = {t} \cup {f \cup {0} : f \in Facets(t)}

Conflict(t, p) ==
    IF 0 \notin t THEN Inside(t, p)
    ELSE LET f == t \ {0} n == Across(t, f) v == CHOOSE v \in n : v \notin f
         IN IF Side(f, p) = 0 THEN Inside(n, p) ELSE Opposite(f, p, v)

\* the smallest face of a tetrahedron that contains p (empty when p lies outside)
Holds(t, p) == \A v \in t : ~ Opposite(t \ {v}, v, p)
Carrier(p) ==
    LET H == {t \in Real : Holds(t, p)}
    IN IF H = {} THEN {} ELSE LET t == CHOOSE t \in H : TRUE IN {v \in t : Side(t \ {v}, p) # 0}
Seeds(p) ==
    LET c == Carrier(p)
    IN IF c # {} THEN {{t \in T : c \subseteq t}}
       ELSE {{t} : t \in {g \in Ghost : LET f == g \ {0} n == Across(g, f) IN Opposite(f, p, CHOOSE v \in n : v \notin f)}}

RECURSIVE Grow(_, _)
Grow(C, p) ==
    LET N == {n \in T \ C : (\E t \in C : Cardinality(n \cap t) = 3) /\ Conflict(n, p)}
    IN IF N = {} THEN C ELSE Grow(C \cup N, p)
Rim(C) == {f \in UNION {Facets(t) : t \in C} : Cardinality({t \in C : f \subseteq t}) = 1}
Insert(p) ==
    /\ p \notin done
    /\ done' = done \cup {p}
    /\ \E s \in Seeds(p) : LET C == Grow(s, p) IN T' = (T \ C) \cup {f \cup {p} : f \in Rim(C)}
Next == \E p \in Pts : Insert(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---------------------------------------------------------------- properties
TypeOk == done \subseteq Pts /\ \A t \in T : Cardinality(t) = 4 /\ t \subseteq done \cup {0}
Solid == \A t \in Real : Ori[t] # 0
\* every facet joins exactly two, on opposite sides when both are real
Closed == \A t \in T : \A f \in Facets(t) :
    LET N == {n \in T : f \subseteq n} IN
    Cardinality(N) = 2 /\ (0 \notin UNION N => LET V == (UNION N) \ f IN \A a, b \in V : a # b => Opposite(f, a, b))
Hull == \A g \in Ghost : LET f == g \ {0} n == Across(g, f) v == CHOOSE v \in n : v \notin f IN \A p \in done \ f : ~ Opposite(f, v, p)
EmptySpheres == \A t \in Real : \A p \in done \ t : ~ Inside(t, p)
AllUsed == UNION Real = done
\* the result is determined by the set of points: the order of insertion does not matter
ByDefinition == Real = {t \in Sets(done, 4) : Ori[t] # 0 /\ \A p \in done \ t : ~ Inside(t, p)}
\* no point can be left without a place
Placeable == \A p \in Pts \ done : Seeds(p) # {} /\ \A s \in Seeds(p) : s # {} /\ \A t \in s : Conflict(t, p)
Finishes == <>(done = Pts)
=============================================================================
