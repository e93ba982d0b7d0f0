----------------------------- MODULE SearchTrees -----------------------------
(* Design model of the augmenting-path solver with two search trees, on every  *)
(* network of the configured size.  Terminal capacities are folded: one        *)
(* residual number per node, positive towards the source, negative towards the *)
(* sink.  The choices the code makes by queue order are left nondeterministic. *)
EXTENDS FlowNet, TLC
CONSTANTS N, MaxCap
Node == 1..N
Free == 0   \* parent values: 0 none/free, -1 the terminal, -2 orphan, else a node
Term == -1
Orphan == -2

VARIABLES net, flow, t, res,     \* network, value so far, terminal residual, residual arcs
          tree,                  \* "F", "S" or "T"
          par, active, phase
vars == <<net, flow, t, res, tree, par, active, phase>>

Pairs == {<<i, j>> \in Node \X Node : i < j}
PairSeq == LET RECURSIVE L(_) L(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : \A q \in S : p[1]*10+p[2] <= q[1]*10+q[2] IN <<p>> \o L(S \ {p}) IN L(Pairs)
Caps == 0..MaxCap
Nets == [src : [Node -> Caps], snk : [Node -> Caps], a : [1..Len(PairSeq) -> Caps], b : [1..Len(PairSeq) -> Caps]]
ArcsOf(w) == [x \in 1..Len(PairSeq) |-> <<PairSeq[x][1], PairSeq[x][2], w.a[x], w.b[x]>>]
Min(x, y) == IF x < y THEN x ELSE y
Abs(x) == IF x < 0 THEN -x ELSE x

Init ==
    /\ net \in Nets
    /\ t = [i \in Node |-> net.src[i] - net.snk[i]]
    /\ flow = SumSeq([i \in Node |-> Min(net.src[i], net.snk[i])])
    /\ res = [p \in Node \X Node |->
          SumSeq([x \in 1..Len(PairSeq) |-> IF PairSeq[x] = p THEN net.a[x]
                  ELSE IF PairSeq[x] = <<p[2], p[1]>> THEN net.b[x] ELSE 0])]
    /\ tree = [i \in Node |-> IF t[i] > 0 THEN "S" ELSE IF t[i] < 0 THEN "T" ELSE "F"]
    /\ par = [i \in Node |-> IF t[i] # 0 THEN Term ELSE Free]
    /\ active = {i \in Node : t[i] # 0}
    /\ phase = "grow"

\* residual capacity of the tree arc that feeds v from u, u, v in the same tree
Feed(k, u, v) == IF k = "S" THEN res[u, v] ELSE res[v, u]

Grow == /\ phase = "grow"
        /\ \E u \in active, v \in Node :
             /\ tree[v] = "F" /\ u # v /\ Feed(tree[u], u, v) > 0
             /\ tree' = [tree EXCEPT ![v] = tree[u]]
             /\ par' = [par EXCEPT ![v] = u]
             /\ active' = active \cup {v}
        /\ UNCHANGED <<net, flow, t, res, phase>>

RECURSIVE PathUp(_)
PathUp(u) == IF par[u] = Term THEN <<u>> ELSE Append(PathUp(par[u]), u)   \* root first

Augment ==
    /\ phase = "grow"
    /\ \E u \in Node, v \in Node :
        /\ tree[u] = "S" /\ tree[v] = "T" /\ res[u, v] > 0
        /\ (u \in active \/ v \in active)
        /\ LET pu == PathUp(u)
               pv == PathUp(v)
               bott == MinOf({res[u, v], Abs(t[pu[1]]), Abs(t[pv[1]])}
                        \cup {res[pu[i], pu[i+1]] : i \in 1..(Len(pu) - 1)}
                        \cup {res[pv[i+1], pv[i]] : i \in 1..(Len(pv) - 1)})
               along == {<<u, v>>} \cup {<<pu[i], pu[i+1]>> : i \in 1..(Len(pu) - 1)}
                        \cup {<<pv[i+1], pv[i]>> : i \in 1..(Len(pv) - 1)}
               r2 == [p \in Node \X Node |-> res[p]
                        - (IF p \in along THEN bott ELSE 0)
                        + (IF <<p[2], p[1]>> \in along THEN bott ELSE 0)]
               t2 == [t EXCEPT ![pu[1]] = @ - bott, ![pv[1]] = @ + bott]
           IN /\ res' = r2 /\ t' = t2 /\ flow' = flow + bott
              /\ par' = [i \in Node |->
                    IF par[i] = Term /\ t2[i] = 0 THEN Orphan
                    ELSE IF par[i] > 0 /\ (IF tree[i] = "S" THEN r2[par[i], i] ELSE r2[i, par[i]]) = 0
                         THEN Orphan ELSE par[i]]
              /\ phase' = "adopt"
    /\ UNCHANGED <<net, tree, active>>

\* the path from u leads to a terminal, not to an orphan
RECURSIVE Rooted(_)
Rooted(u) == par[u] = Term \/ (par[u] > 0 /\ Rooted(par[u]))

Adopt ==
    /\ phase = "adopt"
    /\ \E o \in {i \in Node : par[i] = Orphan} :
        LET cand == {p \in Node : p # o /\ tree[p] = tree[o] /\ Feed(tree[o], p, o) > 0 /\ Rooted(p)}
        IN IF cand # {} THEN /\ \E p \in cand : par' = [par EXCEPT ![o] = p]
                             /\ UNCHANGED <<tree, active>>
           ELSE /\ tree' = [tree EXCEPT ![o] = "F"]
                /\ par' = [i \in Node |-> IF i = o THEN Free ELSE IF par[i] = o THEN Orphan ELSE par[i]]
                \* neighbours that could grow back into o must look again
                /\ active' = (active \ {o}) \cup
                      {p \in Node : p # o /\ tree[p] = tree[o] /\ Feed(tree[o], p, o) > 0}
    /\ UNCHANGED <<net, flow, t, res, phase>>
AdoptDone == /\ phase = "adopt" /\ \A i \in Node : par[i] # Orphan
             /\ phase' = "grow" /\ UNCHANGED <<net, flow, t, res, tree, par, active>>

\* an active node with nothing to grow into and nothing to meet becomes passive
Passive == /\ phase = "grow"
           /\ \E u \in active :
               /\ \A v \in Node \ {u} : Feed(tree[u], u, v) > 0 => tree[v] = tree[u]
               /\ active' = active \ {u}
           /\ UNCHANGED <<net, flow, t, res, tree, par, phase>>
Finish == /\ phase = "grow" /\ active = {} /\ phase' = "done"
          /\ UNCHANGED <<net, flow, t, res, tree, par, active>>
Next == Grow \/ Augment \/ Adopt \/ AdoptDone \/ Passive \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
------------------------------------------------------------------------------
TypeOK == \A p \in Node \X Node : res[p] >= 0
TreesOK == \A i \in Node :
    /\ (tree[i] = "F") = (par[i] = Free)
    /\ par[i] > 0 => tree[par[i]] = tree[i] /\ Feed(tree[i], par[i], i) > 0
    /\ par[i] = Term => (IF tree[i] = "S" THEN t[i] > 0 ELSE t[i] < 0)
    /\ phase = "grow" => (par[i] # Orphan /\ (tree[i] # "F" => Rooted(i)))
\* every terminal with capacity left still feeds its tree
TermsIn == \A i \in Node : (t[i] > 0 => tree[i] = "S") /\ (t[i] < 0 => tree[i] = "T")
ActiveOK == \A u \in active : tree[u] # "F"
\* nothing passive has been forgotten
Covered == phase = "grow" => \A u, v \in Node :
    (tree[u] = "S" /\ tree[v] # "S" /\ res[u, v] > 0) => (u \in active \/ (tree[v] = "T" /\ v \in active))
\* nodes in neither tree go to the source side
SourceSide == {i \in Node : tree[i] # "T"}
Result == phase = "done" =>
    LET opt == MinCut(N, net.src, net.snk, ArcsOf(net))
    IN flow = opt /\ CutCap(N, net.src, net.snk, ArcsOf(net), SourceSide) = opt
Inv == TypeOK /\ TreesOK /\ TermsIn /\ ActiveOK /\ Covered /\ Result
Terminates == <>(phase = "done")
=============================================================================
