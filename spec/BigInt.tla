-------------------------------- MODULE BigInt --------------------------------
(* Arbitrary integers as digit sequences, base 4096, least digit first.  Digits  *)
(* may be any sign while an expression is built; Carry brings them to 0..4095     *)
(* with a signed rest on top, which decides sign and equality.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Base == 4096

BMax(a, b) == IF a >= b THEN a ELSE b
Dg(p, i) == IF i <= Len(p) THEN p[i] ELSE 0
Trunc(p, n) == TLCEval([i \in 1..n |-> Dg(p, i)])

RECURSIVE CarryR(_, _, _)
CarryR(p, i, c) ==       \* digits from i on, carry c coming in; ends with the signed rest
    IF i > Len(p) THEN <<c>>
    ELSE LET x == p[i] + c IN <<x % Base>> \o CarryR(p, i + 1, x \div Base)
Carry(p) == TLCEval(CarryR(p, 1, 0))

BAdd(p, q) == TLCEval([i \in 1..BMax(Len(p), Len(q)) |-> Dg(p, i) + Dg(q, i)])
BNeg(p) == TLCEval([i \in 1..Len(p) |-> -p[i]])
BSub(p, q) == TLCEval([i \in 1..BMax(Len(p), Len(q)) |-> Dg(p, i) - Dg(q, i)])
RECURSIVE ConvB(_, _, _, _, _)
ConvB(p, q, n, i, lo) == IF i < lo THEN 0 ELSE p[i] * q[n + 1 - i] + ConvB(p, q, n, i - 1, lo)
BMul(p, q) ==
    IF Len(p) = 0 \/ Len(q) = 0 THEN <<>>
    ELSE TLCEval([n \in 1..(Len(p) + Len(q) - 1) |->
            ConvB(p, q, n, IF n < Len(p) THEN n ELSE Len(p), IF n + 1 > Len(q) THEN n + 1 - Len(q) ELSE 1)])

\* sign of a carried number
BSgn(c) ==
    IF c[Len(c)] < 0 THEN -1
    ELSE IF \A i \in 1..Len(c) : c[i] = 0 THEN 0 ELSE 1
BSign(p) == BSgn(Carry(p))
BEq(p, q) == BSign(BSub(p, q)) = 0

\* bits of a magnitude with digits 0..4095
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
RECURSIVE Low(_)
Low(n) == IF n % 2 = 1 THEN 0 ELSE 1 + Low(n \div 2)
BitLen(l) == LET nz == {i \in 1..Len(l) : l[i] # 0}
             IN IF nz = {} THEN 0 ELSE LET t == CHOOSE i \in nz : \A j \in nz : j <= i IN 12 * (t - 1) + Bits(l[t])
LowBit(l) == LET nz == {i \in 1..Len(l) : l[i] # 0}
                 t == CHOOSE i \in nz : \A j \in nz : i <= j IN 12 * (t - 1) + Low(l[t])
=============================================================================
