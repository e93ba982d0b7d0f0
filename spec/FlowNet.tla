------------------------------- MODULE FlowNet -------------------------------
(* Two-terminal networks: interior nodes 1..n, arcs from the source (src[i]),  *)
(* to the sink (snk[i]) and between interior nodes: arcs is a sequence of      *)
(* <<i, j, c, r>>, capacity c from i to j and r from j to i.  A cut is given   *)
(* by the set S of interior nodes on the source side.                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumSeq(s) == SumTo(s, Len(s))

CutCap(n, src, snk, arcs, S) ==
    SumSeq([i \in 1..n |-> IF i \in S THEN snk[i] ELSE src[i]])
    + SumSeq([a \in 1..Len(arcs) |->
          (IF arcs[a][1] \in S /\ arcs[a][2] \notin S THEN arcs[a][3] ELSE 0)
        + (IF arcs[a][2] \in S /\ arcs[a][1] \notin S THEN arcs[a][4] ELSE 0)])

MinOf(T) == CHOOSE x \in T : \A y \in T : x <= y

\* by definition: the least capacity over all cuts
MinCut(n, src, snk, arcs) ==
    MinOf({CutCap(n, src, snk, arcs, S) : S \in SUBSET (1..n)})

(* A feasible flow: fs[i] from the source, ft[i] to the sink, fa[a] net along   *)
(* arc a (negative: against it).  Its value bounds every cut from below, so a  *)
(* cut whose capacity equals it is minimum (the certificate for networks too   *)
(* large to enumerate their cuts).                                             *)
FeasibleFlow(n, src, snk, arcs, fs, ft, fa) ==
    /\ \A i \in 1..n : fs[i] >= 0 /\ fs[i] <= src[i] /\ ft[i] >= 0 /\ ft[i] <= snk[i]
    /\ \A a \in 1..Len(arcs) : fa[a] <= arcs[a][3] /\ fa[a] >= -arcs[a][4]
    /\ \A i \in 1..n :
          fs[i] - ft[i] + SumSeq([a \in 1..Len(arcs) |->
                (IF arcs[a][2] = i THEN fa[a] ELSE 0) - (IF arcs[a][1] = i THEN fa[a] ELSE 0)]) = 0
FlowValue(fs) == SumSeq(fs)
=============================================================================
