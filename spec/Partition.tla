------------------------------ MODULE Partition ------------------------------
(* What a disjoint-set structure means: an equivalence on 1..n, given as       *)
(* rep[i] = least member of the class of i.                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Discrete(n) == [i \in 1..n |-> i]
Joined(rep, x, y) ==
    LET lo == IF rep[x] < rep[y] THEN rep[x] ELSE rep[y]
        hi == IF rep[x] < rep[y] THEN rep[y] ELSE rep[x]
    IN [i \in DOMAIN rep |-> IF rep[i] = hi THEN lo ELSE rep[i]]
Classes(rep) == {{j \in DOMAIN rep : rep[j] = rep[i]} : i \in DOMAIN rep}
NClasses(rep) == Cardinality({i \in DOMAIN rep : rep[i] = i})
=============================================================================
