------------------------------ MODULE PredTrace ------------------------------
(* Recorded calls of the explicit predicates against their definitions.        *)
EXTENDS CaseTrace, Exact

P(r, i) == r.pts[i]
P2(r, i, a, b) == <<r.pts[i][a], r.pts[i][b]>>

Value(r) ==
    CASE r.f = "orient2d" -> Orient2(P(r,1), P(r,2), P(r,3))
      [] r.f = "orient3d" -> Orient3(P(r,1), P(r,2), P(r,3), P(r,4))
      [] r.f = "orient3d_fast" -> Orient3(P(r,1), P(r,2), P(r,3), P(r,4))
      [] r.f = "incircle" -> InCircle(P(r,1), P(r,2), P(r,3), P(r,4))
      [] r.f = "insphere" -> InSphere(P(r,1), P(r,2), P(r,3), P(r,4), P(r,5))
      [] r.f = "orient4d" -> Orient4(P(r,1), P(r,2), P(r,3), P(r,4), P(r,5))
      [] r.f = "orient2d_axis" ->
            IF r.axis = 0 THEN Orient2(P2(r,1,2,3), P2(r,2,2,3), P2(r,3,2,3))
            ELSE IF r.axis = 1 THEN Orient2(P2(r,1,3,1), P2(r,2,3,1), P2(r,3,3,1))
            ELSE Orient2(P2(r,1,1,2), P2(r,2,1,2), P2(r,3,1,2))

Bad(r) ==
    IF r.obs.crash # "" THEN {r.obs.crash}
    ELSE LET want == SignOf(Value(r), r.k)
         IN Clause("sign of " \o r.f \o " is " \o ToString(want) \o " not " \o ToString(r.obs.sign),
                   r.obs.sign = want)

TraceNext == CaseReturn(Bad(Trace[h]))
TraceSpec == CaseInit /\ [][TraceNext]_<<h, k>>
TraceDone == CaseDone
=============================================================================
