------------------------------- MODULE ClsTrace -------------------------------
(* Position tests between explicit points, segments and triangles, stated with  *)
(* exact vectors: normals, cross products and dot products instead of the        *)
(* planar projections the code works with.  Triangles are non-degenerate; the    *)
(* point given with a triangle or a half plane lies in its plane.                *)
EXTENDS CaseTrace, Vec3

\* p and q lie strictly on the same side of the line a b, or both on it
SameSide(p, q, a, b, K) ==
    LET x == Off(p, a, b) y == Off(q, a, b)
    IN IF ZeroV(x) \/ ZeroV(y) THEN ZeroV(x) /\ ZeroV(y) ELSE SignOf(Dot(x, y), K) > 0
ClosedSeg(p, a, b, K) == Same(p, a) \/ Same(p, b) \/ OpenSeg(p, a, b, K)

TriSide(p, a, b, n, K) == SignOf(Dot(Off(p, a, b), n), K)
TriSides(p, a, b, c, K) ==
    LET n == Off(c, a, b) IN <<TriSide(p, a, b, n, K), TriSide(p, b, c, n, K), TriSide(p, c, a, n, K)>>
OpenTri(p, a, b, c, K) == LET s == TriSides(p, a, b, c, K) IN \A i \in 1..3 : s[i] > 0
ClosedTri(p, a, b, c, K) == LET s == TriSides(p, a, b, c, K) IN \A i \in 1..3 : s[i] >= 0

\* two open segments meet in exactly one point and are not parallel
ProperCross(a, b, c, d, K) ==
    /\ SignOf(Orient3(a, b, c, d), K) = 0
    /\ SignOf(Dot(Off(c, a, b), Off(d, a, b)), K) < 0
    /\ SignOf(Dot(Off(a, c, d), Off(b, c, d)), K) < 0
\* the open segment u w passes through the interior of the triangle from side to side
Pierce(u, w, a, b, c, K) ==
    /\ SignOf(Orient3(a, b, c, u), K) * SignOf(Orient3(a, b, c, w), K) < 0
    /\ LET s == SignOf(Orient3(u, w, a, b), K)
       IN s # 0 /\ s = SignOf(Orient3(u, w, b, c), K) /\ s = SignOf(Orient3(u, w, c, a), K)
\* the open segment meets a vertex, or an open side or the interior in a single point
CrossTri(u, w, a, b, c, K) ==
    \/ OpenSeg(a, u, w, K) \/ OpenSeg(b, u, w, K) \/ OpenSeg(c, u, w, K)
    \/ ProperCross(a, b, u, w, K) \/ ProperCross(b, c, u, w, K) \/ ProperCross(c, a, u, w, K)
    \/ Pierce(u, w, a, b, c, K)

Coplanar(p, a, b, c, K) == SignOf(Orient3(p, a, b, c), K) = 0

(* the classification is coherent: consequences checked on every record as well  *)
Value(r) ==
    LET P == r.pts K == r.k IN
    CASE r.f = "same_point" -> Same(P[1], P[2])
      [] r.f = "mis_alignment" -> ~ Collinear(P[1], P[2], P[3])
      [] r.f = "same_half_plane" -> SameSide(P[1], P[2], P[3], P[4], K)
      [] r.f = "point_in_inner_segment" -> OpenSeg(P[1], P[2], P[3], K)
      [] r.f = "point_in_segment" -> ClosedSeg(P[1], P[2], P[3], K)
      [] r.f = "point_in_inner_triangle" -> OpenTri(P[1], P[2], P[3], P[4], K)
      [] r.f = "point_in_triangle" -> ClosedTri(P[1], P[2], P[3], P[4], K)
      [] r.f = "inner_segments_cross" -> ProperCross(P[1], P[2], P[3], P[4], K)
      [] r.f = "inner_segment_cross_inner_triangle" -> Pierce(P[1], P[2], P[3], P[4], P[5], K)
      [] r.f = "inner_segment_cross_triangle" -> CrossTri(P[1], P[2], P[3], P[4], P[5], K)

Pre(r) ==
    LET P == r.pts K == r.k IN
    CASE r.f = "same_half_plane" -> Coplanar(P[1], P[2], P[3], P[4], K)
      [] r.f \in {"point_in_inner_triangle", "point_in_triangle"} ->
            ~ Collinear(P[2], P[3], P[4]) /\ Coplanar(P[1], P[2], P[3], P[4], K)
      [] r.f \in {"inner_segment_cross_inner_triangle", "inner_segment_cross_triangle"} -> ~ Collinear(P[3], P[4], P[5])
      [] OTHER -> TRUE

(* the axis chosen to project a triangle: the normal component along it is        *)
(* non-zero and largest, up to rounding when the coordinates spread over levels:  *)
(* the shortfall is then two levels below the square of the largest edge.         *)
AbsX(x, K) == IF SignOf(x, K) < 0 THEN Neg(x) ELSE x
Deg(x) == LET nz == {i \in 1..Len(x) : x[i] # 0} IN IF nz = {} THEN 0 ELSE CHOOSE i \in nz : \A j \in nz : j <= i
AxisBad(r) ==
    LET P == r.pts K == r.k
        u == VSub(P[2], P[1]) v == VSub(P[3], P[2])
        n == Cross(u, v)
        a == AbsX(n[r.obs.axis + 1], K)
        degs == {Deg(u[i]) : i \in 1..3} \cup {Deg(v[i]) : i \in 1..3}
        top == CHOOSE d \in degs : \A e \in degs : e <= d       \* level of the longest edge
    IN IF ZeroV(n) THEN {}
       ELSE Clause("the projected triangle is degenerate", ~ IsZero(a))
            \cup Clause("not an axis of the largest normal component",
                        \A i \in 1..3 : LET d == Sub(AbsX(n[i], K), a)
                                        IN SignOf(d, K) <= 0 \/ (r.mode = "lev" /\ Deg(d) <= 2 * (top - 1) + 1 - 2))
            \cup Clause("the choice changed when asked again", r.obs.axis = r.obs.again)

Bad(r) ==
    IF r.obs.crash # "" THEN {r.obs.crash}
    ELSE IF r.f = "axis" THEN AxisBad(r)
    ELSE IF ~ Pre(r) THEN {}
    ELSE Clause(r.f \o " is " \o ToString(Value(r)), r.obs.r = Value(r))

TraceNext == CaseReturn(Bad(Trace[h]))
TraceSpec == CaseInit /\ [][TraceNext]_<<h, k>>
TraceDone == CaseDone
=============================================================================
