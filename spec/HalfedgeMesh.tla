---------------------------- MODULE HalfedgeMesh ----------------------------
(* Half-edge records: what it means for the links of a mesh to be consistent,  *)
(* and which polygons they represent.  A state st carries sequences indexed by *)
(* (number + 1): from next edge face sib nin nout eh fh vh valid.              *)
EXTENDS MeshAbs

G(a, i) == a[i + 1]
H(st) == 0..(Len(st.from) - 1)
E(st) == 0..(Len(st.eh) - 1)
F(st) == 0..(Len(st.fh) - 1)
V(st) == 0..(Len(st.vh) - 1)
Tip(st, h) == G(st.from, G(st.next, h))

\* the cycle of the successor function g through x (g must be a permutation)
RECURSIVE CycleFrom(_, _, _, _)
CycleFrom(g, x, y, acc) ==
    IF y = x \/ Len(acc) > Len(g) THEN acc ELSE CycleFrom(g, x, G(g, y), Append(acc, y))
Cycle(g, x) == CycleFrom(g, x, G(g, x), <<x>>)

IsPerm(g, n) == Len(g) = n /\ Range(g) = 0..(n - 1)
\* g's cycles are exactly the classes of the labelling f
CyclesAre(g, f(_), dom) ==
    \A h \in dom : LET c == Cycle(g, h) IN
        /\ \A i \in 1..Len(c) : f(c[i]) = f(h)
        /\ Len(c) = Cardinality({x \in dom : f(x) = f(h)})

Ranged(st) ==
    /\ \A h \in H(st) : G(st.from, h) \in V(st) /\ G(st.edge, h) \in E(st) /\ G(st.face, h) \in F(st)
    /\ IsPerm(st.next, Len(st.from)) /\ IsPerm(st.sib, Len(st.from))
    /\ IsPerm(st.nin, Len(st.from)) /\ IsPerm(st.nout, Len(st.from))
    /\ Range(st.eh) \subseteq H(st) /\ Range(st.fh) \subseteq H(st)

\* the set of clauses broken
Broken(st) ==
    IF ~ Ranged(st) THEN {"links in range and one-to-one"}
    ELSE LET C(n, b) == IF b THEN {} ELSE {n}
             dom == H(st)
             Fc(h) == G(st.face, h)  Ed(h) == G(st.edge, h)
             Tl(h) == G(st.from, h)  Tp(h) == Tip(st, h)
         IN C("face cycles", CyclesAre(st.next, Fc, dom))
            \cup C("sibling cycles", CyclesAre(st.sib, Ed, dom))
            \cup C("outgoing cycles", CyclesAre(st.nout, Tl, dom))
            \cup C("incoming cycles", CyclesAre(st.nin, Tp, dom))
            \cup C("halfedges of an edge join its ends",
                   \A h \in dom : LET g == G(st.eh, Ed(h)) IN {Tl(h), Tp(h)} = {Tl(g), Tp(g)} /\ Tl(h) # Tp(h))
            \cup C("edge has its halfedge", \A e \in E(st) : Ed(G(st.eh, e)) = e)
            \cup C("face has its halfedge", \A f \in F(st) : Fc(G(st.fh, f)) = f)
            \cup C("vertex has its halfedge",
                   \A v \in V(st) : LET out == {h \in dom : Tl(h) = v} IN
                        /\ (G(st.valid, v) = 1) = (out # {})
                        /\ out # {} => G(st.vh, v) \in out)

Abs(st) == [nv |-> Len(st.vh), ne |-> Len(st.eh),
            faces |-> [f \in 1..Len(st.fh) |->
                LET c == Cycle(st.next, st.fh[f]) IN [i \in 1..Len(c) |-> <<G(st.from, c[i]), G(st.edge, c[i])>>]]]
=============================================================================
