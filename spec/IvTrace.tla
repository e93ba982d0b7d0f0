------------------------------- MODULE IvTrace --------------------------------
(* Recorded interval computations.  An expression tree whose leaves are           *)
(* independent intervals attains exactly the range computed here with exact       *)
(* numbers, so the recorded signs can be judged both ways: no claim that fails    *)
(* somewhere in the range, and (for integers, which the arithmetic represents      *)
(* with room to spare) every claim that holds on all of it.                        *)
EXTENDS CaseTrace, Exact

Lt(a, b, K) == SignOf(Sub(b, a), K) > 0
MinOf(S, K) == CHOOSE x \in S : \A y \in S : ~ Lt(y, x, K)
MaxOf(S, K) == CHOOSE x \in S : \A y \in S : ~ Lt(x, y, K)
RECURSIVE Rng(_, _)
Rng(e, K) ==       \* <<least, greatest>>
    CASE e[1] = "n" -> <<e[2], e[3]>>
      [] e[1] = "f" -> <<e[2], e[2]>>
      [] e[1] = "neg" -> LET a == Rng(e[2], K) IN TLCEval(<<Neg(a[2]), Neg(a[1])>>)
      [] e[1] = "+" -> LET a == Rng(e[2], K) b == Rng(e[3], K) IN TLCEval(<<Add(a[1], b[1]), Add(a[2], b[2])>>)
      [] e[1] = "-" -> LET a == Rng(e[2], K) b == Rng(e[3], K) IN TLCEval(<<Sub(a[1], b[2]), Sub(a[2], b[1])>>)
      [] e[1] = "*" -> LET a == Rng(e[2], K) b == Rng(e[3], K)
                           S == TLCEval({Mul(a[1], b[1]), Mul(a[1], b[2]), Mul(a[2], b[1]), Mul(a[2], b[2])})
                       IN TLCEval(<<MinOf(S, K), MaxOf(S, K)>>)

\* signs of the whole range R shifted by -m, against the three answers q
Judge(R, m, q, K, sharp, what) ==
    LET lo == SignOf(Sub(R[1], m), K) hi == SignOf(Sub(R[2], m), K) IN
    Clause(what \o "reported positive", q[1] = 1 => lo > 0)
    \cup Clause(what \o "reported negative", q[2] = 1 => hi < 0)
    \cup Clause(what \o "reported non-zero", q[3] = 1 => (lo > 0 \/ hi < 0))
    \cup Clause(what \o "not reported positive", (sharp /\ lo > 0) => q[1] = 1 /\ q[3] = 1)
    \cup Clause(what \o "not reported negative", (sharp /\ hi < 0) => q[2] = 1 /\ q[3] = 1)
Same(a, b, K) == \A i \in {1, 2} : SignOf(Sub(a[i], b[i]), K) = 0
Bad(r) ==
    IF r.obs.crash # "" THEN {r.obs.crash}
    ELSE LET R == TLCEval(Rng(r.e, r.k)) sharp == (r.mode = "int") IN
         Clause("two intervals are one exactly if both ends are", r.obs.eq # 9 => (r.obs.eq = 1 <=> Same(Rng(r.e[2], r.k), Rng(r.e[3], r.k), r.k)))
         \cup Judge(R, <<0>>, r.obs.q, r.k, sharp, "")
         \cup UNION {Judge(R, r.probes[i], r.obs.probes[i], r.k, sharp, "off by a probe: ") : i \in 1..Len(r.probes)}

TraceNext == CaseReturn(Bad(Trace[h]))
TraceSpec == CaseInit /\ [][TraceNext]_<<h, k>>
TraceDone == CaseDone
=============================================================================
