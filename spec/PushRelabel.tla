----------------------------- MODULE PushRelabel -----------------------------
(* Design model of the FIFO push-relabel min-cut solver on every network of    *)
(* the configured size: excess, labels and residual capacities, the discharge  *)
(* queue, the gap heuristic and global relabelling (free to fire at any time), *)
(* and the last step: exact labels, from which the reported side of each node  *)
(* is read.  Node 0 is the sink, 1..N are interior, N+1 is the source.         *)
EXTENDS FlowNet, TLC
CONSTANTS N, MaxCap
Node == 0..(N + 1)
Src == N + 1
Snk == 0
D == N + 2                  \* label of a node that cannot reach the sink

VARIABLES net,              \* [src, snk, arcs] the chosen network
          res,              \* residual capacity of every ordered pair
          ex, lab,          \* excess, label
          queue,            \* FIFO of active interior nodes
          phase             \* "run" -> "labels" -> "done"
vars == <<net, res, ex, lab, queue, phase>>

Pairs == {<<i, j>> \in (1..N) \X (1..N) : i < j}
PairSeq == LET RECURSIVE L(_) L(S) == IF S = {} THEN <<>> ELSE LET p == CHOOSE p \in S : \A q \in S : p[1]*10+p[2] <= q[1]*10+q[2] IN <<p>> \o L(S \ {p}) IN L(Pairs)
Caps == 0..MaxCap
Nets == [src : [1..N -> Caps], snk : [1..N -> Caps], a : [1..Len(PairSeq) -> Caps], b : [1..Len(PairSeq) -> Caps]]
ArcsOf(w) == [x \in 1..Len(PairSeq) |-> <<PairSeq[x][1], PairSeq[x][2], w.a[x], w.b[x]>>]
CapOf(w) == [u \in Node, v \in Node |->
    IF u = Src /\ v \in 1..N THEN w.src[v]
    ELSE IF u \in 1..N /\ v = Snk THEN w.snk[u]
    ELSE IF <<u, v>> \in Pairs THEN w.a[CHOOSE x \in 1..Len(PairSeq) : PairSeq[x] = <<u, v>>]
    ELSE IF <<v, u>> \in Pairs THEN w.b[CHOOSE x \in 1..Len(PairSeq) : PairSeq[x] = <<v, u>>]
    ELSE 0]

\* exact residual distance to the sink, D if there is none
Dist(r) ==
    LET RECURSIVE Lay(_, _, _)
        Lay(f, seen, d) ==
          LET nxt == {u \in Node \ seen : u # Src /\ \E v \in seen : f[v] = d /\ r[u, v] > 0}
          IN IF nxt = {} THEN f
             ELSE Lay([u \in Node |-> IF u \in nxt THEN d + 1 ELSE f[u]], seen \cup nxt, d + 1)
    IN Lay([u \in Node |-> IF u = Snk THEN 0 ELSE D], {Snk}, 0)

Init ==
    /\ net \in Nets
    /\ LET c == CapOf(net) IN
        /\ res = [p \in Node \X Node |->
                   IF p[1] = Src THEN 0 ELSE IF p[2] = Src /\ p[1] \in 1..N THEN c[Src, p[1]] ELSE c[p[1], p[2]]]
        /\ ex = [u \in Node |-> IF u \in 1..N THEN net.src[u] ELSE 0]
    /\ lab = Dist(res)
    /\ queue = SelectSeq([i \in 1..N |-> i], LAMBDA u : net.src[u] > 0 /\ lab[u] < D)
    /\ phase = "run"

InQ(q, u) == \E i \in 1..Len(q) : q[i] = u
Enq(q, u) == IF u \in 1..N /\ ~ InQ(q, u) THEN Append(q, u) ELSE q

Admissible(u, v) == res[u, v] > 0 /\ lab[u] = lab[v] + 1

Push == /\ phase = "run" /\ queue # <<>>
        /\ LET u == Head(queue) IN \E v \in Node :
             /\ ex[u] > 0 /\ Admissible(u, v) /\ lab[u] < D
             /\ LET d == IF ex[u] < res[u, v] THEN ex[u] ELSE res[u, v]
                IN /\ res' = [res EXCEPT ![u, v] = @ - d, ![v, u] = @ + d]
                   /\ ex' = [ex EXCEPT ![u] = @ - d, ![v] = @ + d]
                   /\ LET q1 == Enq(queue, v) IN queue' = IF ex[u] = d THEN Tail(q1) ELSE q1
        /\ UNCHANGED <<net, lab, phase>>

Relabel == /\ phase = "run" /\ queue # <<>>
           /\ LET u == Head(queue)
                  to == {lab[v] : v \in {v \in Node : v # Src /\ res[u, v] > 0}}
                  new == IF to = {} THEN D ELSE IF MinOf(to) + 1 >= D THEN D ELSE MinOf(to) + 1
              IN /\ ex[u] > 0 /\ ~ \E v \in Node : Admissible(u, v)
                 /\ lab[u] < D
                 /\ LET gap == ~ \E w \in 1..N : w # u /\ lab[w] = lab[u]
                        \* gap heuristic: nothing is left at the old level
                        l2 == IF gap THEN [w \in Node |-> IF w \in 1..N /\ lab[w] >= lab[u] THEN D ELSE lab[w]]
                              ELSE [lab EXCEPT ![u] = new]
                    IN /\ lab' = l2
                       /\ queue' = IF l2[u] < D THEN Append(Tail(queue), u) ELSE Tail(queue)
           /\ UNCHANGED <<net, res, ex, phase>>

Skip == /\ phase = "run" /\ queue # <<>>
        /\ (ex[Head(queue)] = 0 \/ lab[Head(queue)] >= D)
        /\ queue' = Tail(queue) /\ UNCHANGED <<net, res, ex, lab, phase>>

GlobalRelabel == /\ phase = "run" /\ lab # Dist(res)
                 /\ lab' = Dist(res) /\ UNCHANGED <<net, res, ex, queue, phase>>

Finish == /\ phase = "run" /\ queue = <<>>
          /\ phase' = "labels" /\ UNCHANGED <<net, res, ex, lab, queue>>
FinalLabels == /\ phase = "labels" /\ lab' = Dist(res) /\ phase' = "done"
               /\ UNCHANGED <<net, res, ex, queue>>
Next == Push \/ Relabel \/ Skip \/ GlobalRelabel \/ Finish \/ FinalLabels
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

------------------------------------------------------------------------------
SourceSide == {u \in 1..N : lab[u] >= D}
TypeOK == /\ \A u \in Node : ex[u] >= 0 /\ lab[u] \in 0..D
          /\ \A u, v \in Node : res[u, v] >= 0
\* valid labelling: no residual arc goes down by more than one level
Valid == \A u \in 1..N, v \in 0..N : (res[u, v] > 0 /\ lab[u] < D) => lab[u] <= lab[v] + 1
\* a label D is only given to nodes that cannot reach the sink
Unreachable == \A u \in 1..N : lab[u] >= D => Dist(res)[u] >= D
\* nothing with excess and a way to the sink is forgotten
Active == phase = "run" => \A u \in 1..N : (ex[u] > 0 /\ lab[u] < D) => InQ(queue, u)
\* excess is conserved: what left the source is at the nodes or in the sink
Conserved == SumTo([i \in 1..(N + 1) |-> ex[i - 1]], N + 1) + SumTo([i \in 1..N |-> res[Src, i]], N)
                = SumTo(net.src, N)
Result == phase = "done" =>
    LET opt == MinCut(N, net.src, net.snk, ArcsOf(net))
    IN /\ ex[Snk] = opt
       /\ CutCap(N, net.src, net.snk, ArcsOf(net), SourceSide) = opt
Inv == TypeOK /\ Valid /\ Unreachable /\ Active /\ Conserved /\ Result
Terminates == <>(phase = "done")
=============================================================================
