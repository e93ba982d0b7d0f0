------------------------------- MODULE BigTrace -------------------------------
(* Predicates on explicit and implicit points whose coordinates use the whole     *)
(* mantissa; coordinates are recorded as digits of big integers in one unit.       *)
EXTENDS CaseTrace, BigGeo

P(r, i) == r.pts[i]
Explicit(r) ==
    CASE r.f = "orient2d" -> Orient2(P(r,1), P(r,2), P(r,3))
      [] r.f = "orient3d" -> Orient3(P(r,1), P(r,2), P(r,3), P(r,4))
      [] r.f = "incircle" -> InCircle(P(r,1), P(r,2), P(r,3), P(r,4))
      [] r.f = "insphere" -> InSphere(P(r,1), P(r,2), P(r,3), P(r,4), P(r,5))
      [] r.f = "orient4d" -> Orient4(P(r,1), P(r,2), P(r,3), P(r,4), P(r,5))

Implicit(r) ==
    LET H == TLCEval([i \in 1..Len(r.pts) |-> Hom(r.pts[i])])
    IN IF \E i \in 1..Len(H) : W(H[i]) = 0 THEN 9
       ELSE CASE r.f = "o3"   -> -HOrient3(H[1], H[2], H[3], H[4])
              [] r.f = "o2xy" -> HOrient2(H[1], H[2], H[3], 1, 2)
              [] r.f = "o2yz" -> HOrient2(H[1], H[2], H[3], 2, 3)
              [] r.f = "o2zx" -> HOrient2(H[1], H[2], H[3], 3, 1)
              [] r.f = "ltx"  -> HDiff(H[1], H[2], 1)
              [] r.f = "lty"  -> HDiff(H[1], H[2], 2)
              [] r.f = "ltz"  -> HDiff(H[1], H[2], 3)
Kinds(r) == [i \in 1..Len(r.pts) |-> r.pts[i].t]

Bad(r) ==
    IF r.obs.crash # "" THEN {r.obs.crash}
    ELSE IF r.op = "pred"
         THEN LET want == HSign(Explicit(r))
              IN Clause("sign of " \o r.f \o " is " \o ToString(want) \o " not " \o ToString(r.obs.sign),
                        r.obs.sign = want)
    ELSE LET want == Implicit(r)
             what == r.f \o ToString(Kinds(r)) \o " is " \o ToString(want)
         IN Clause(what \o " not " \o ToString(r.obs.r), r.obs.r = want)
            \cup Clause("asked again: " \o ToString(r.obs.again), r.obs.again = want)
            \cup Clause("asked on clones: " \o ToString(r.obs.clone), r.obs.clone = want)

TraceNext == CaseReturn(Bad(Trace[h]))
TraceSpec == CaseInit /\ [][TraceNext]_<<h, k>>
TraceDone == CaseDone
=============================================================================
