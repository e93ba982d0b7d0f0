--------------------------------- MODULE Vec3 ---------------------------------
(* Vectors in space over exact numbers: products, lines, order along a line.     *)
EXTENDS Exact

Dot(u, v) == DotV(u, v)

IsZero(x) == \A i \in 1..Len(x) : x[i] = 0
ZeroV(u) == \A i \in 1..3 : IsZero(u[i])
Same(a, b) == ZeroV(VSub(a, b))
Off(p, a, b) == TLCEval(Cross(VSub(b, a), VSub(p, a)))     \* zero iff p is on the line of a and b
Collinear(p, a, b) == ZeroV(Off(p, a, b))

\* strictly between a and b
OpenSeg(p, a, b, K) == Collinear(p, a, b) /\ SignOf(Dot(VSub(p, a), VSub(p, b)), K) < 0
=============================================================================
