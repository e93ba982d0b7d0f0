------------------------------- MODULE MeshAbs -------------------------------
(* A polygon mesh as users see it.  A state is a record                        *)
(*   [nv, ne, faces]   faces[f] a cyclic sequence of uses <<v, e>>: the face   *)
(* runs along edge e from v to the v of its next use.  Vertices, edges and     *)
(* faces are numbered from 0 (faces[f + 1] is face f).                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

NextIdx(s, i) == IF i = Len(s) THEN 1 ELSE i + 1
Rot(s, r) == [i \in 1..Len(s) |-> s[((i - 1 + r) % Len(s)) + 1]]
SameCycle(a, b) == Len(a) = Len(b) /\ \E r \in 0..(Len(a) - 1) : Rot(a, r) = b
Range(s) == {s[i] : i \in 1..Len(s)}

EdgeUses(m, e) == UNION {{<<f, i>> : i \in {i \in 1..Len(m.faces[f]) : m.faces[f][i][2] = e}} : f \in 1..Len(m.faces)}
UseEnds(m, u) == LET s == m.faces[u[1]] IN <<s[u[2]][1], s[NextIdx(s, u[2])][1]>>
EdgeEnds(m, e) == LET u == CHOOSE u \in EdgeUses(m, e) : TRUE IN {UseEnds(m, u)[1], UseEnds(m, u)[2]}

(* Invariants of a valid mesh *)
Simple(s) == Len(s) >= 3 /\ \A i, j \in 1..Len(s) : i # j => s[i][1] # s[j][1]
ValidMesh(m) ==
    /\ \A f \in 1..Len(m.faces) :
          /\ Len(m.faces[f]) >= 3
          /\ \A i \in 1..Len(m.faces[f]) : m.faces[f][i][1] \in 0..(m.nv - 1) /\ m.faces[f][i][2] \in 0..(m.ne - 1)
    /\ \A e \in 0..(m.ne - 1) :
          /\ EdgeUses(m, e) # {}
          /\ \A u, w \in EdgeUses(m, e) :
                {UseEnds(m, u)[1], UseEnds(m, u)[2]} = {UseEnds(m, w)[1], UseEnds(m, w)[2]}
          /\ Cardinality(EdgeEnds(m, e)) = 2

(* Construction: one face per polygon, one edge per unordered pair in use.     *)
\* polygons: sequence of sequences of vertex numbers
PolyPairs(p) == {{p[i], p[NextIdx(p, i)]} : i \in 1..Len(p)}
AllPairs(ps) == UNION {PolyPairs(ps[f]) : f \in 1..Len(ps)}
IsBuilt(m, ps) ==
    /\ m.ne = Cardinality(AllPairs(ps))
    /\ Len(m.faces) = Len(ps)
    /\ \A f \in 1..Len(ps) : SameCycle([i \in 1..Len(m.faces[f]) |-> m.faces[f][i][1]], ps[f])
    /\ \A v \in UNION {Range(ps[f]) : f \in 1..Len(ps)} : v < m.nv
    /\ ValidMesh(m)
    /\ {EdgeEnds(m, e) : e \in 0..(m.ne - 1)} = AllPairs(ps)

(* Edge split: a new vertex w on every use of e.  keep is the end that stays   *)
(* on e; the other half is the new edge.                                       *)
RECURSIVE SplitUses(_, _, _, _, _, _)
SplitUses(s, i, e, w, keep, ne) ==
    IF i > Len(s) THEN <<>>
    ELSE (IF s[i][2] # e THEN <<s[i]>>
          ELSE IF s[i][1] = keep THEN <<s[i], <<w, ne>>>>
          ELSE << <<s[i][1], ne>>, <<w, e>> >>) \o SplitUses(s, i + 1, e, w, keep, ne)
SplitEdge(m, e, keep) ==
    [nv |-> m.nv + 1, ne |-> m.ne + 1,
     faces |-> [f \in 1..Len(m.faces) |-> SplitUses(m.faces[f], 1, e, m.nv, keep, m.ne)]]

(* Face split along the chord a b: one of the two parts keeps the number f.    *)
Pos(s, v) == CHOOSE i \in 1..Len(s) : s[i][1] = v
Arc(s, a, b, ne) ==   \* from a along the face to b, then back over the chord
    LET r == Rot(s, Pos(s, a) - 1)
    IN Append(SubSeq(r, 1, Pos(r, b) - 1), <<b, ne>>)
SplitFace(m, f, a, b) ==
    LET s == m.faces[f + 1]
    IN [nv |-> m.nv, ne |-> m.ne + 1,
        faces |-> Append([m.faces EXCEPT ![f + 1] = Arc(s, a, b, m.ne)], Arc(s, b, a, m.ne))]
CanSplit(m, f, a, b) ==
    LET s == m.faces[f + 1]
    IN /\ a # b
       /\ Cardinality({i \in 1..Len(s) : s[i][1] = a}) = 1
       /\ Cardinality({i \in 1..Len(s) : s[i][1] = b}) = 1
       /\ LET i == Pos(s, a) j == Pos(s, b) IN NextIdx(s, i) # j /\ NextIdx(s, j) # i

(* Adding a face over existing uses: walk is a closed sequence of <<v, e>>.    *)
CanAdd(m, walk) ==
    /\ Len(walk) >= 3
    /\ \A i \in 1..Len(walk) : walk[i][2] \in 0..(m.ne - 1)
          /\ EdgeEnds(m, walk[i][2]) = {walk[i][1], walk[NextIdx(walk, i)][1]}
AddFace(m, walk) == [m EXCEPT !.faces = Append(@, walk)]

SameMesh(m, n) ==
    /\ m.nv = n.nv /\ m.ne = n.ne /\ Len(m.faces) = Len(n.faces)
    /\ \A f \in 1..Len(m.faces) : SameCycle(m.faces[f], n.faces[f])
=============================================================================
