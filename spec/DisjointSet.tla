---------------------------- MODULE DisjointSet ----------------------------
(* The structure itself: parent forest, ranks, full path compression, link by  *)
(* rank.  The abstract equivalence rep is carried along; Inv is the refinement *)
(* mapping.  With Gen the behaviours (merge histories) are printed for replay. *)
EXTENDS Partition, TLC, Json
CONSTANTS N, MaxOps, Gen
VARIABLES parent, rank, groups, rep, hist
vars == <<parent, rank, groups, rep, hist>>
El == 1..N

RECURSIVE Root(_, _)
Root(p, x) == IF p[x] = x THEN x ELSE Root(p, p[x])
\* every node on the path from x now points at the root
RECURSIVE Path(_, _)
Path(p, x) == IF p[x] = x THEN {x} ELSE {x} \cup Path(p, p[x])
Compress(p, x) == [i \in El |-> IF i \in Path(p, x) THEN Root(p, x) ELSE p[i]]

Init == /\ parent = Discrete(N) /\ rank = [i \in El |-> 0] /\ groups = N
        /\ rep = Discrete(N) /\ hist = <<>>
Merge(x, y) ==
    LET p1 == Compress(parent, x)
        p2 == Compress(p1, y)
        a == p2[x]
        b == p2[y]
    IN /\ rep' = Joined(rep, x, y)
       /\ IF a = b THEN parent' = p2 /\ UNCHANGED <<rank, groups>>
          ELSE /\ groups' = groups - 1
               /\ IF rank[a] > rank[b] THEN parent' = [p2 EXCEPT ![b] = a] /\ rank' = rank
                  ELSE /\ parent' = [p2 EXCEPT ![a] = b]
                       /\ rank' = IF rank[a] = rank[b] THEN [rank EXCEPT ![b] = @ + 1] ELSE rank
\* reading the groups compresses every path and changes nothing else
Output == parent' = [i \in El |-> Root(parent, i)] /\ UNCHANGED <<rank, groups, rep>>

Emit == IF Gen = 0 THEN TRUE ELSE PrintT("GEN|" \o ToJson(hist'))
Next == /\ Len(hist) < MaxOps
        /\ \/ \E x, y \in El : Merge(x, y) /\ hist' = Append(hist, <<x - 1, y - 1>>)
           \/ Gen = 0 /\ Output /\ hist' = Append(hist, <<>>)
        /\ Emit
Spec == Init /\ [][Next]_vars
View == <<parent, rank, groups, rep, Len(hist)>>

Acyclic == \A i \in El : Cardinality(Path(parent, i)) <= N
Refines == \A i, j \in El : (Root(parent, i) = Root(parent, j)) <=> (rep[i] = rep[j])
Count == groups = NClasses(rep) /\ groups = Cardinality({i \in El : parent[i] = i})
RankOK == \A i \in El : parent[i] # i => rank[i] < rank[parent[i]]
\* link by rank keeps the trees shallow: 2^rank members at least
RankSize == \A i \in El : parent[i] = i =>
                Cardinality({j \in El : Root(parent, j) = i}) >= 2 ^ rank[i]
Inv == Acyclic /\ Refines /\ Count /\ RankOK /\ RankSize
=============================================================================
