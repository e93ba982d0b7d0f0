------------------------------- MODULE ExpTrace -------------------------------
(* Expansion arithmetic: the components of operands and result are recorded as   *)
(* exact big integers (operands in units of 2^base, results of products in units *)
(* of 2^(2 base)); the result must be the mathematical one, component by          *)
(* component well formed, and its sign readable from the last component.          *)
EXTENDS CaseTrace, BigInt

Sg(x) == IF x.s < 0 THEN BNeg(x.l) ELSE x.l
RECURSIVE SumR(_, _)
SumR(c, i) == IF i = 0 THEN <<>> ELSE BAdd(SumR(c, i - 1), Sg(c[i]))
\* value of an expansion, kept as carried digits plus signed rest
Val(c) == TLCEval(Carry(SumR(c, Len(c))))

First(c) == <<c[1]>>
Want(r) ==
    LET a == Val(r.obs.a) b == Val(r.obs.b) IN
    CASE r.f \in {"grow", "growz"} -> BAdd(a, Val(First(r.obs.b)))
      [] r.f \in {"sum", "fsum", "opadd"} -> BAdd(a, b)
      [] r.f \in {"fdiff", "opsub"} -> BSub(a, b)
      [] r.f = "scale" -> BMul(a, Val(First(r.obs.b)))
      [] r.f \in {"mul", "opmul"} -> BMul(a, b)
      [] r.f \in {"invert", "opneg"} -> BNeg(a)

NonZero(c) == SelectSeq(c, LAMBDA x : x.s # 0)
\* increasing magnitude, no two components share a bit position
Ordered(c) == LET n == NonZero(c)
              IN \A i \in 1..(Len(n) - 1) : BitLen(n[i].l) <= LowBit(n[i + 1].l)
Elim == {"growz", "fsum", "fdiff", "scale", "mul", "opadd", "opsub", "opmul"}

Bad(r) ==
    IF r.obs.crash # "" THEN {r.obs.crash}
    ELSE LET w == Want(r) s == BSign(w) R == r.obs.r IN
         Clause("the value is not exact", BEq(w, Val(R)))
         \cup Clause("components overlap or are not ordered", Ordered(R))
         \cup Clause("spurious zero component", r.f \in Elim => (Len(R) >= 1 /\ (Len(R) > 1 => \A i \in 1..Len(R) : R[i].s # 0)))
         \cup Clause("the last component does not carry the sign", r.f \in Elim \cup {"opneg"} => r.obs.last = s)
         \cup Clause("the estimate has the wrong sign", r.obs.est = s)
         \cup Clause("sign queries", r.f \in Elim \cup {"opneg"} => (r.obs.neg = (IF s < 0 THEN 1 ELSE 0) /\ r.obs.nz = (IF s # 0 THEN 1 ELSE 0)))

TraceNext == CaseReturn(Bad(Trace[h]))
TraceSpec == CaseInit /\ [][TraceNext]_<<h, k>>
TraceDone == CaseDone
=============================================================================
