------------------------------- MODULE Interval -------------------------------
(* Interval arithmetic on pairs [high, -low] as the library keeps them, over the *)
(* integers (so rounding is absent and the result must be the exact range).       *)
(* The product follows the nine-way case split on the signs of the two lanes;     *)
(* the model checks it, and sum, difference and negation, against the range of    *)
(* the operation over every pair of integers inside the operands.                 *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANT N

Mx(a, b) == IF a >= b THEN a ELSE b
Mn(a, b) == IF a <= b THEN a ELSE b

Enc(lo, hi) == <<hi, -lo>>
Lo(d) == -d[2]
Hi(d) == d[1]
Rev(d) == <<d[2], d[1]>>
Times(d, e) == <<d[1] * e[1], d[2] * e[2]>>

IvNeg(a) == Rev(a)
IvAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
IvSub(a, b) == <<a[1] + b[2], a[2] + b[1]>>
\* which lane is negative: 0 none (straddles zero), 1 the high lane (negative), 2 the low lane (positive)
Class(d) == IF d[1] < 0 THEN 1 ELSE IF d[2] < 0 THEN 2 ELSE 0
IvMul(a, b) ==
    LET ca == Class(a) cb == Class(b) IN
    CASE ca = 0 /\ cb = 0 -> LET p == Times(a, b) q == Times(a, Rev(b)) IN <<Mx(p[1], p[2]), Mx(q[1], q[2])>>
      [] ca = 0 /\ cb = 1 -> Times(Rev(a), <<b[2], b[2]>>)
      [] ca = 0 /\ cb = 2 -> Times(a, <<b[1], b[1]>>)
      [] ca = 1 /\ cb = 0 -> Times(<<a[2], a[2]>>, Rev(b))
      [] ca = 1 /\ cb = 1 -> Rev(Times(<<-a[1], a[2]>>, b)) \* (-hi_a) * hi_b is minus the least product
      [] ca = 1 /\ cb = 2 -> Times(a, Rev(<<b[1], -b[2]>>))
      [] ca = 2 /\ cb = 0 -> Times(<<a[1], a[1]>>, b)
      [] ca = 2 /\ cb = 1 -> Times(Rev(<<a[1], -a[2]>>), b)
      [] ca = 2 /\ cb = 2 -> Times(a, <<b[1], -b[2]>>)
Positive(d) == d[2] < 0
Negative(d) == d[1] < 0

VARIABLES a, b, op, c
Ivs == {Enc(l, u) : l \in -N..N, u \in -N..N}
Valid(d) == Lo(d) <= Hi(d)
Init == a \in {d \in Ivs : Valid(d)} /\ b \in {d \in Ivs : Valid(d)} /\ op = "none" /\ c = <<0, 0>>
Next ==
    /\ op = "none" /\ UNCHANGED <<a, b>>
    /\ \/ op' = "+" /\ c' = IvAdd(a, b)
       \/ op' = "-" /\ c' = IvSub(a, b)
       \/ op' = "*" /\ c' = IvMul(a, b)
       \/ op' = "neg" /\ c' = IvNeg(a)
Spec == Init /\ [][Next]_<<a, b, op, c>>

Ap(o, x, y) == CASE o = "+" -> x + y [] o = "-" -> x - y [] o = "*" -> x * y [] o = "neg" -> -x
Range == {Ap(op, x, y) : x \in Lo(a)..Hi(a), y \in Lo(b)..Hi(b)}
Encloses == op # "none" => \A v \in Range : Lo(c) <= v /\ v <= Hi(c)
Tight == op # "none" => Lo(c) \in Range /\ Hi(c) \in Range
Signs == op # "none" =>
    /\ Positive(c) <=> \A v \in Range : v > 0
    /\ Negative(c) <=> \A v \in Range : v < 0
\* the behaviours to replay: every operation on every pair of intervals
Gen == op # "none" => PrintT("GEN|" \o ToJson(<<op, Lo(a), Hi(a), Lo(b), Hi(b)>>))
=============================================================================
