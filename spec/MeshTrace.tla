------------------------------ MODULE MeshTrace ------------------------------
(* Recorded construction and edit histories of the real half-edge mesh.  Every *)
(* step carries the complete projection of the mesh; step k of the record must *)
(* be a step MeshAbs allows, with consistent links, and the traversals must    *)
(* visit what is incident.  What selects the clauses a property is about.      *)
EXTENDS CaseTrace, HalfedgeMesh
CONSTANT What    \* "build", "edit" or "walk"
VARIABLES m,     \* the abstract mesh after step k
          ok     \* FALSE once the links are broken: no abstraction exists

R == Trace[h]
S(i) == R.obs.steps[i].st

(* derived accessors agree with the links *)
Accessors(st) ==
    LET C(n, b) == IF b THEN {} ELSE {n}
        dom == H(st)
    IN C("tip", \A x \in dom : G(st.tip, x) = Tip(st, x))
       \cup C("prev", \A x \in dom : G(st.next, G(st.prev, x)) = x)
       \cup C("twin", \A x \in dom :
              LET c == Cycle(st.sib, x)
                  opp == {i \in 2..Len(c) : G(st.from, c[i]) # G(st.from, x)}
              IN G(st.twin, x) = IF opp = {} THEN x ELSE c[CHOOSE i \in opp : \A j \in opp : i <= j])
       \cup C("same direction", \A x \in dom :
              (G(st.same, x) = 1) = (G(st.from, x) = G(st.from, G(st.eh, G(st.edge, x)))))
       \cup C("ends of an edge", \A e \in E(st) :
              st.ev[e + 1] = <<G(st.from, G(st.eh, e)), Tip(st, G(st.eh, e))>>)
       \cup C("counts", st.nh = Len(st.from) /\ st.ne = Len(st.eh) /\ st.nf = Len(st.fh) /\ st.nv = Len(st.vh)
              /\ st.ch = st.nh /\ st.ce = st.ne /\ st.ce2 = st.ne /\ st.cf = st.nf /\ st.cv = st.nv)

Once(s, T) == Range(s) = T /\ Len(s) = Cardinality(T)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Traversals(st) ==
    LET C(n, b) == IF b THEN {} ELSE {n}
        dom == H(st)
        live == {v \in V(st) : \E x \in dom : G(st.from, x) = v}
        inc(v) == {e \in E(st) : LET x == G(st.eh, e) IN G(st.from, x) = v \/ Tip(st, x) = v}
        other(e, v) == LET x == G(st.eh, e) IN IF G(st.from, x) = v THEN Tip(st, x) ELSE G(st.from, x)
        up(n, T) == LET q == SelectSeq([i \in 1..n |-> i - 1], LAMBDA x : x \in T) IN q
    IN C("all vertices", st.itv = up(Len(st.vh), live))
       \cup C("all edges", st.ite = up(Len(st.eh), E(st)))
       \cup C("all faces", st.itf = up(Len(st.fh), F(st)))
       \cup C("all halfedges", st.ith = up(Len(st.from), dom))
       \cup C("outgoing of a vertex", \A v \in live :
              /\ Once(G(st.vout, v), {x \in dom : G(st.from, x) = v})
              /\ G(st.vout, v)[1] = G(st.vh, v))
       \cup C("incoming of a vertex", \A v \in live : Once(G(st.vin, v), {x \in dom : Tip(st, x) = v}))
       \cup C("first halfedges of a vertex", \A v \in live :
              /\ Tip(st, G(st.vi1, v)[1]) = v
              /\ G(st.vi1, v)[2] = G(st.vh, v))
       \cup C("edges of a vertex", \A v \in live : Once(G(st.ve, v), inc(v)))
       \cup C("neighbours of a vertex", \A v \in live :
              /\ Len(G(st.vv, v)) = Cardinality(inc(v))
              /\ \A w \in V(st) : Count(G(st.vv, v), w) = Cardinality({e \in inc(v) : other(e, v) = w}))
       \cup C("halfedges of an edge", \A e \in E(st) :
              /\ Once(G(st.ehs, e), {x \in dom : G(st.edge, x) = e})
              /\ G(st.ehs, e)[1] = G(st.eh, e))
       \cup C("halfedges of a face", \A f \in F(st) : G(st.fhs, f) = Cycle(st.next, G(st.fh, f)))
       \cup C("vertices of a face", \A f \in F(st) :
              G(st.fvs, f) = [i \in 1..Len(G(st.fhs, f)) |-> G(st.from, G(st.fhs, f)[i])])

\* halfedges that the operation does not touch keep their links
Untouched(act, args, p, q) ==
    LET C(n, b) == IF b THEN {} ELSE {n}
        dom == H(p)
        keep == IF act = "se" THEN {x \in dom : G(p.edge, x) # args[1]} ELSE dom
    IN C("untouched halfedges keep tail, edge and face",
         Len(q.from) >= Len(p.from) /\
         \A x \in keep : /\ G(q.from, x) = G(p.from, x) /\ G(q.edge, x) = G(p.edge, x)
                         /\ (act = "sf" /\ G(p.face, x) = args[1]) \/ G(q.face, x) = G(p.face, x)
                         /\ (act = "sf" /\ G(p.face, x) = args[1]) \/ G(q.next, x) = G(p.next, x))

EditOK(s, p, q) ==
    LET C(n, b) == IF b THEN {} ELSE {n}
        a == s.args
        new == Abs(q)
    IN CASE s.act = "se" ->
             C("edge split gives the expected polygons",
               \E x \in EdgeEnds(m, a[1]) : SameMesh(new, SplitEdge(m, a[1], x)))
             \cup C("edge split returns the new vertex", s.ret = m.nv)
        [] s.act = "sf" ->
             IF ~ Assert(CanSplit(m, a[1], a[2], a[3]), "driver") THEN {}
             ELSE C("face split gives the expected polygons",
               \E x \in {<<a[2], a[3]>>, <<a[3], a[2]>>} : SameMesh(new, SplitFace(m, a[1], x[1], x[2])))
             \cup C("face split returns the chord in the new face",
               s.ret \in H(q) /\ G(q.edge, s.ret) = m.ne /\ G(q.face, s.ret) = Len(m.faces))
        [] s.act = "af" ->
             LET w == [i \in 1..Len(a) |-> <<G(p.from, a[i]), G(p.edge, a[i])>>]
             IN IF ~ Assert(CanAdd(m, w), <<"driver", R.id>>) THEN {}
                ELSE C("face insertion gives the expected polygons", SameMesh(new, AddFace(m, w)))
                     \cup C("face insertion returns the new face", s.ret = Len(m.faces))
        [] s.act = "lost" -> {"an element of the mesh is missing"}

Polys == [f \in 1..Len(R.polys) |-> R.polys[f]]
First == LET st == S(1) IN
    LET b == Broken(st) IN
    IF What = "build" THEN
       IF b # {} THEN b
       ELSE Accessors(st) \cup (IF IsBuilt(Abs(st), Polys) THEN {} ELSE {"the mesh is the given polygons"})
    ELSE IF What = "walk" THEN (IF b # {} THEN b ELSE Traversals(st))
    ELSE {}

\* tags keep TLC's sets to strings
TraceInit ==
    /\ h \in 1..Len(Trace) /\ k = 1
    /\ IF R.obs.crash # "" THEN /\ Report(R.id, IF What = "build" /\ Len(R.ops) > 0 THEN {} ELSE {R.obs.crash})
                                /\ ok = FALSE /\ m = 0
       ELSE /\ Report(R.id, First)
            /\ ok = (Broken(S(1)) = {})
            /\ m = IF Broken(S(1)) = {} THEN Abs(S(1)) ELSE 0

Steps(r) == IF r.obs.crash # "" THEN 1 ELSE Len(r.obs.steps)
TraceStep ==
    /\ k < Steps(R)
    /\ k' = k + 1 /\ h' = h
    /\ IF ~ ok THEN UNCHANGED <<m, ok>>
       ELSE LET p == S(k) q == S(k + 1) s == R.obs.steps[k + 1]
                b == Broken(q)
            IN /\ Report(R.id,
                    IF What = "build" THEN {}
                    ELSE IF b # {} THEN b
                    ELSE IF What = "walk" THEN Traversals(q)
                    ELSE Accessors(q) \cup EditOK(s, p, q) \cup Untouched(s.act, s.args, p, q))
               /\ ok' = (b = {})
               /\ m' = IF b = {} THEN Abs(q) ELSE m
TraceSpec == TraceInit /\ [][TraceStep]_<<h, k, m, ok>>
RECURSIVE SumLen(_)
SumLen(i) == IF i = 0 THEN 0 ELSE Steps(Trace[i]) + SumLen(i - 1)
TraceDone == TLCGet("stats").distinct = SumLen(Len(Trace))
=============================================================================
