------------------------------ MODULE ImpTrace -------------------------------
(* Implicit points.  The state of the model is a set of points with known      *)
(* exact coordinates (field v); the implementation only sees a representation: *)
(* explicit (E), the meet of a line and a plane (L: p q | r s t), or the meet  *)
(* of three planes (T: 3 x 3 points).  Every predicate must answer for the     *)
(* represented point, whatever the representation, or Undefined when the       *)
(* representation determines no point.                                         *)
EXTENDS CaseTrace, Exact

Zero(x) == \A i \in 1..Len(x) : x[i] = 0
ZeroV(u) == \A i \in 1..3 : Zero(u[i])

Defined(x) ==
    CASE x.t = "E" -> TRUE
      [] x.t = "L" -> ~ Zero(DotV(VSub(x.p[1], x.p[2]), Normal(x.p[3], x.p[4], x.p[5])))
      [] x.t = "T" -> ~ Zero(Det3(Normal(x.p[1], x.p[2], x.p[3]), Normal(x.p[4], x.p[5], x.p[6]),
                                  Normal(x.p[7], x.p[8], x.p[9])))
\* the representation does represent the point (checked for every case: guards the generator)
Represents(x) ==
    CASE x.t = "E" -> x.p[1] = x.v
      [] x.t = "L" -> /\ ZeroV(Cross(VSub(x.v, x.p[1]), VSub(x.v, x.p[2])))
                      /\ Zero(Orient3(x.p[3], x.p[4], x.p[5], x.v))
      [] x.t = "T" -> /\ Zero(Orient3(x.p[1], x.p[2], x.p[3], x.v))
                      /\ Zero(Orient3(x.p[4], x.p[5], x.p[6], x.v))
                      /\ Zero(Orient3(x.p[7], x.p[8], x.p[9], x.v))

V(r, i) == r.pts[i].v
V2(r, i, a, b) == <<V(r, i)[a], V(r, i)[b]>>
O2(r, a, b) == SignOf(Orient2(V2(r,1,a,b), V2(r,2,a,b), V2(r,3,a,b)), r.k)
Lt(r, a) == SignOf(Sub(V(r,1)[a], V(r,2)[a]), r.k)
\* p (the first point) lies between the other two, the three being collinear
Between(r) ==
    LET s(a, i, j) == SignOf(Sub(V(r,i)[a], V(r,j)[a]), r.k)
    IN IF \A a \in 1..3 : s(a, 2, 3) = 0 THEN 1   \* the segment is a point
       ELSE IF \A a \in 1..3 : s(a, 2, 1) * s(a, 1, 3) >= 0 /\ (s(a, 2, 3) = 0 => s(a, 2, 1) = 0)
            THEN 1 ELSE 0

Want(r) ==
    CASE r.f = "o3"   -> -SignOf(Orient3(V(r,1), V(r,2), V(r,3), V(r,4)), r.k)
      [] r.f = "o2xy" -> O2(r, 1, 2)
      [] r.f = "o2yz" -> O2(r, 2, 3)
      [] r.f = "o2zx" -> O2(r, 3, 1)
      [] r.f = "o2ax" -> IF r.axis = 0 THEN O2(r, 2, 3) ELSE IF r.axis = 1 THEN O2(r, 3, 1) ELSE O2(r, 1, 2)
      [] r.f = "ltx"  -> Lt(r, 1)
      [] r.f = "lty"  -> Lt(r, 2)
      [] r.f = "ltz"  -> Lt(r, 3)
      [] r.f = "inseg" -> Between(r)

Kinds(r) == [i \in 1..Len(r.pts) |-> r.pts[i].t]

Bad(r) ==
    IF r.obs.crash # "" THEN {r.obs.crash}
    ELSE IF ~ Assert(\A i \in 1..Len(r.pts) : Represents(r.pts[i]), <<"generator", r.id>>) THEN {}
    ELSE IF r.f = "expl"
         THEN Clause("explicit coordinates of the point", \A i \in 1..3 : r.obs.err[i] <= 64)
    ELSE LET def == \A i \in 1..Len(r.pts) : Defined(r.pts[i])
             want == IF def THEN Want(r) ELSE 9
             what == r.f \o ToString(Kinds(r)) \o " is " \o ToString(want)
         IN Clause(what \o " not " \o ToString(r.obs.r), r.obs.r = want)
            \cup Clause("asked again: " \o ToString(r.obs.again), r.obs.again = want)
            \cup Clause("asked on clones: " \o ToString(r.obs.clone), r.obs.clone = want)

TraceNext == CaseReturn(Bad(Trace[h]))
TraceSpec == CaseInit /\ [][TraceNext]_<<h, k>>
TraceDone == CaseDone
=============================================================================
