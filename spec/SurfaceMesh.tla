----------------------------- MODULE SurfaceMesh -----------------------------
(* Design model of the half-edge mesh: the link updates of construction, edge  *)
(* split, face split and face insertion, written out as the code performs      *)
(* them, from every small polygon set; the abstract mesh of MeshAbs runs along *)
(* and the links must represent it in every state.                             *)
EXTENDS HalfedgeMesh, TLC, Json
CONSTANTS MaxOps, Gen, Starts
VARIABLES st, m, hist
vars == <<st, m, hist>>

None == 0 - 1
\* polygon sets to start from (vertex numbers from 0)
StartSets == <<
    << <<0,1,2>> >>,                                            \* 1 a triangle
    << <<0,1,2>>, <<2,1,3>> >>,                                 \* 2 two, consistent
    << <<0,1,2>>, <<1,2,3>> >>,                                 \* 3 two, inconsistent
    << <<0,1,2>>, <<1,0,3>>, <<0,1,4>> >>,                      \* 4 three on an edge
    << <<0,1,2,3>> >>,                                          \* 5 a quad
    << <<0,1,2>>, <<0,3,4>> >>,                                 \* 6 bow tie at a vertex
    << <<0,2,1>>, <<0,1,3>>, <<1,2,3>>, <<2,0,3>> >>,           \* 7 tetrahedron
    << <<0,1,2>>, <<0,1,2>> >>,                                 \* 8 the same face twice
    << <<0,1,2>>, <<2,1,0>> >>,                                 \* 9 a pillow
    << <<0,1,2,3>>, <<1,0,4,5>>, <<0,1,2>> >>,                  \* 10 fan with a diagonal
    << <<0,1,2>>, <<3,4,5>> >> >>                               \* 11 disconnected

\* insert x after y in the cyclic list g (sequence indexed by number + 1; x new at the end)
Ins(g, y, x) == [i \in 1..Len(g) |-> IF i = y + 1 THEN x ELSE IF i = x + 1 THEN G(g, y) ELSE g[i]]
Grow(g, n) == g \o [i \in 1..n |-> None]
\* close the sequence c as a cycle in g
CloseCycle(g, c) == [i \in 1..Len(g) |-> IF \E j \in 1..Len(c) : c[j] = i - 1
                        THEN LET j == CHOOSE j \in 1..Len(c) : c[j] = i - 1 IN c[NextIdx(c, j)] ELSE g[i]]
RECURSIVE CloseAll(_, _)
CloseAll(g, cs) == IF cs = <<>> THEN g ELSE CloseAll(CloseCycle(g, Head(cs)), Tail(cs))
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetToSeq(S \ {x})

RECURSIVE Offset(_, _)
Offset(ps, f) == IF f = 1 THEN 0 ELSE Offset(ps, f - 1) + Len(ps[f - 1])
Build(ps) ==
    LET n == Offset(ps, Len(ps)) + Len(ps[Len(ps)])
        fo == [h \in 0..(n - 1) |-> CHOOSE f \in 1..Len(ps) : Offset(ps, f) <= h /\ h < Offset(ps, f) + Len(ps[f])]
        ix == [h \in 0..(n - 1) |-> h - Offset(ps, fo[h]) + 1]
        frm == [h \in 0..(n - 1) |-> ps[fo[h]][ix[h]]]
        nx == [h \in 0..(n - 1) |-> Offset(ps, fo[h]) + NextIdx(ps[fo[h]], ix[h]) - 1]
        key == [h \in 0..(n - 1) |-> {frm[h], frm[nx[h]]}]
        first == [h \in 0..(n - 1) |-> \A g \in 0..(h - 1) : key[g] # key[h]]
        eno == [h \in 0..(n - 1) |-> LET g == CHOOSE g \in 0..h : key[g] = key[h] /\ first[g]
                                     IN Cardinality({x \in 0..(g - 1) : first[x]})]
        vs == UNION {Range(ps[f]) : f \in 1..Len(ps)}
        nv == (CHOOSE x \in vs : \A y \in vs : y <= x) + 1
        seq(g) == [i \in 1..n |-> g[i - 1]]
        z == [i \in 1..n |-> None]
        \* siblings run backwards: each points at the previous use of its edge
        back(S) == LET q == SetToSeq(S) IN [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
        es == SetToSeq({eno[h] : h \in 0..(n - 1)})
    IN [from |-> seq(frm), next |-> seq(nx), edge |-> seq(eno), face |-> [i \in 1..n |-> fo[i - 1] - 1],
        sib |-> CloseAll(z, [e \in 1..Len(es) |-> back({h \in 0..(n - 1) : eno[h] = es[e]})]),
        nin |-> CloseAll(z, [v \in 1..nv |-> SetToSeq({h \in 0..(n - 1) : frm[nx[h]] = v - 1})]),
        nout |-> CloseAll(z, [v \in 1..nv |-> SetToSeq({h \in 0..(n - 1) : frm[h] = v - 1})]),
        eh |-> [e \in 1..Len(es) |-> CHOOSE h \in 0..(n - 1) : eno[h] = es[e] /\ first[h]],
        fh |-> [f \in 1..Len(ps) |-> Offset(ps, f)],
        vh |-> [v \in 1..nv |-> LET S == {h \in 0..(n - 1) : frm[h] = v - 1} IN IF S = {} THEN None ELSE CHOOSE h \in S : \A g \in S : g <= h],
        valid |-> [v \in 1..nv |-> IF v - 1 \in vs THEN 1 ELSE 0]]

IdxIn(c, x) == CHOOSE i \in 1..Len(c) : c[i] = x
Filter(c, S) == SelectSeq(c, LAMBDA x : x \in S)
\* splitting edge e, as the code does it
SplitE(s, e) ==
    LET eh == Cycle(s.sib, G(s.eh, e))
        n == Len(eh)
        h0 == Len(s.from)
        nh == [i \in 1..n |-> h0 + i - 1]
        va == G(s.from, eh[1])
        vb == Tip(s, eh[1])
        w == Len(s.vh)
        ne == Len(s.eh)
        inc(v) == Cycle(s.nin, CHOOSE h \in H(s) : Tip(s, h) = v)
        sub(c) == [i \in 1..Len(c) |-> IF c[i] \in Range(eh) THEN nh[IdxIn(eh, c[i])] ELSE c[i]]
        ina == inc(va)   inb == inc(vb)
        toA == Filter(ina, Range(eh))      \* uses of e that run to va
        toB == Filter(inb, Range(eh))
        mapn(c) == [i \in 1..Len(c) |-> nh[IdxIn(eh, c[i])]]
        ea == toB \o mapn(toA)             \* halfedges on the half at va
        eb == toA \o mapn(toB)
        from2 == s.from \o [i \in 1..n |-> w]
        nx0 == Grow(s.next, n)
        RECURSIVE InsAll(_, _)
        InsAll(g, i) == IF i > n THEN g ELSE InsAll(Ins(g, eh[i], nh[i]), i + 1)
    IN [from |-> from2, next |-> InsAll(nx0, 1),
        edge |-> [i \in 1..(h0 + n) |-> IF i - 1 \in Range(ea) THEN e ELSE IF i - 1 \in Range(eb) THEN ne ELSE s.edge[i]],
        face |-> s.face \o [i \in 1..n |-> G(s.face, eh[i])],
        sib |-> CloseAll(Grow(s.sib, n), <<ea, eb>>),
        nin |-> CloseAll(Grow(s.nin, n), <<sub(ina), sub(inb), eh>>),
        nout |-> CloseAll(Grow(s.nout, n), <<nh>>),
        eh |-> Append([s.eh EXCEPT ![e + 1] = ea[1]], eb[1]),
        fh |-> s.fh, vh |-> Append(s.vh, nh[1]), valid |-> Append(s.valid, 1)]

SplitF(s, f, a, b) ==
    LET c == Cycle(s.next, G(s.fh, f))
        ia == CHOOSE i \in 1..Len(c) : G(s.from, c[i]) = a
        ib == CHOOSE i \in 1..Len(c) : G(s.from, c[i]) = b
        p == IF ia < ib THEN ia ELSE ib
        q == IF ia < ib THEN ib ELSE ia
        va == G(s.from, c[p])
        vb == G(s.from, c[q])
        one == SubSeq(c, p, q - 1)
        two == SubSeq(c, q, Len(c)) \o SubSeq(c, 1, p - 1)
        x == Len(s.from)          \* vb -> va, closes one
        y == x + 1                \* va -> vb, closes two
        ne == Len(s.eh)
        nf == Len(s.fh)
    IN [from |-> s.from \o <<vb, va>>,
        next |-> CloseAll(Grow(s.next, 2), <<Append(one, x), Append(two, y)>>),
        edge |-> s.edge \o <<ne, ne>>,
        face |-> [i \in 1..(x + 2) |-> IF i - 1 = x THEN f ELSE IF i - 1 = y \/ i - 1 \in Range(two) THEN nf ELSE s.face[i]],
        sib |-> s.sib \o <<y, x>>,
        nin |-> Ins(Ins(Grow(s.nin, 2), two[Len(two)], x), one[Len(one)], y),
        nout |-> Ins(Ins(Grow(s.nout, 2), two[1], x), one[1], y),
        eh |-> Append(s.eh, x), fh |-> Append([s.fh EXCEPT ![f + 1] = x], y), vh |-> s.vh, valid |-> s.valid]

AddF(s, hs) ==
    LET n == Len(hs)
        h0 == Len(s.from)
        nh == [i \in 1..n |-> h0 + i - 1]
        RECURSIVE InsAll(_, _)
        InsAll(g, i) == IF i > n THEN g ELSE InsAll(Ins(g, hs[i], nh[i]), i + 1)
    IN [from |-> s.from \o [i \in 1..n |-> G(s.from, hs[i])],
        next |-> CloseCycle(Grow(s.next, n), nh),
        edge |-> s.edge \o [i \in 1..n |-> G(s.edge, hs[i])],
        face |-> s.face \o [i \in 1..n |-> Len(s.fh)],
        sib |-> InsAll(Grow(s.sib, n), 1), nin |-> InsAll(Grow(s.nin, n), 1), nout |-> InsAll(Grow(s.nout, n), 1),
        eh |-> s.eh, fh |-> Append(s.fh, nh[1]), vh |-> s.vh, valid |-> s.valid]

\* triangles and quads over existing halfedges
Walks(s) == {w \in [1..3 -> H(s)] \cup [1..4 -> H(s)] :
                /\ w[1] = CHOOSE x \in Range(w) : \A y \in Range(w) : x <= y
                /\ \A i \in 1..Len(w) : Tip(s, w[i]) = G(s.from, w[NextIdx(w, i)])
                /\ \A i, j \in 1..Len(w) : i # j => G(s.from, w[i]) # G(s.from, w[j])}

Emit == IF Gen = 0 THEN TRUE ELSE PrintT("GEN|" \o ToJson(hist'))
Init == /\ \E i \in Starts : st = Build(StartSets[i]) /\ hist = <<StartSets[i]>>
        /\ m = Abs(st)
        /\ IsBuilt(Abs(st), hist[1])
DoSplitEdge == \E e \in E(st) :
    /\ st' = SplitE(st, e)
    /\ \E x \in EdgeEnds(m, e) : m' = SplitEdge(m, e, x) /\ SameMesh(Abs(st'), m')
    /\ LET h == G(st.eh, e) IN hist' = Append(hist, <<"se", G(st.from, h), Tip(st, h)>>)
DoSplitFace == \E f \in F(st) : \E a, b \in V(st) :
    /\ (\E i \in 1..Len(m.faces[f+1]) : m.faces[f+1][i][1] = a) /\ (\E i \in 1..Len(m.faces[f+1]) : m.faces[f+1][i][1] = b)
    /\ CanSplit(m, f, a, b)
    /\ st' = SplitF(st, f, a, b)
    /\ \E x \in {<<a, b>>, <<b, a>>} : m' = SplitFace(m, f, x[1], x[2]) /\ SameMesh(Abs(st'), m')
    /\ hist' = Append(hist, <<"sf", f, a, b>>)
DoAddFace == \E w \in Walks(st) :
    /\ st' = AddF(st, w)
    /\ m' = AddFace(m, [i \in 1..Len(w) |-> <<G(st.from, w[i]), G(st.edge, w[i])>>])
    /\ hist' = Append(hist, <<"af">> \o [i \in 1..Len(w) |-> G(st.from, w[i])])
Next == Len(hist) <= MaxOps /\ (DoSplitEdge \/ DoSplitFace \/ DoAddFace) /\ Emit
Spec == Init /\ [][Next]_vars
View == <<st, Len(hist)>>
------------------------------------------------------------------------------
Links == Broken(st) = {}
Represents == SameMesh(Abs(st), m)
Valid == ValidMesh(m)
\* every operation that the abstract mesh allows is possible (no action is disabled by a mismatch)
Enabled == Len(hist) <= MaxOps => \A e \in E(st) : \E x \in EdgeEnds(m, e) : SameMesh(Abs(SplitE(st, e)), SplitEdge(m, e, x))
\* Euler characteristic: unchanged by edge and face splits
Inv == Links /\ Represents /\ Valid /\ Enabled
=============================================================================
