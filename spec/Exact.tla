-------------------------------- MODULE Exact --------------------------------
(* Exact numbers for coordinates of widely different magnitude.  A number is a *)
(* non-empty sequence of integers <<c0, c1, ...>> standing for                 *)
(*    c0 + c1 T + c2 T^2 + ...      with T = 2^k large,                        *)
(* so an ordinary integer n is <<n>>.  Sums and products are those of          *)
(* polynomials; the sign is that of the highest non-zero coefficient, which is *)
(* right as long as every coefficient stays below T/2 (SignOf asserts it).     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
\* TLCEval only fixes the order of evaluation (TLC would otherwise recompute shared terms)

Max2(a, b) == IF a >= b THEN a ELSE b
At(p, i) == IF i <= Len(p) THEN p[i] ELSE 0

Add(p, q) == TLCEval([i \in 1..Max2(Len(p), Len(q)) |-> At(p, i) + At(q, i)])
Neg(p) == TLCEval([i \in 1..Len(p) |-> -p[i]])
Sub(p, q) == TLCEval([i \in 1..Max2(Len(p), Len(q)) |-> At(p, i) - At(q, i)])

RECURSIVE Conv(_, _, _, _)
Conv(p, q, n, i) ==      \* sum over i' <= i of p[i'] q[n+1-i']
    IF i = 0 THEN 0
    ELSE (IF n + 1 - i >= 1 /\ n + 1 - i <= Len(q) THEN p[i] * q[n + 1 - i] ELSE 0)
         + Conv(p, q, n, i - 1)
Mul(p, q) ==
    IF Len(p) = 1 /\ Len(q) = 1 THEN <<p[1] * q[1]>>
    ELSE TLCEval([n \in 1..(Len(p) + Len(q) - 1) |-> Conv(p, q, n, Len(p))])

Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
AbsI(n) == IF n < 0 THEN -n ELSE n

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536,
          131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216, 33554432,
          67108864, 134217728, 268435456, 536870912>>        \* Pow2[i+1] = 2^i

\* sign of p when T = 2^k
SignOf(p, k) ==
    IF Len(p) = 1 THEN Sgn(p[1])
    ELSE LET nz == {i \in 1..Len(p) : p[i] # 0}
         IN IF ~ Assert(\A i \in nz : AbsI(p[i]) <= Pow2[k], <<"coefficient too large", p>>) THEN 0
            ELSE IF nz = {} THEN 0
            ELSE Sgn(p[CHOOSE i \in nz : \A j \in nz : j <= i])

---------------------------------------------------------------------------
INSTANCE Geo
=============================================================================
