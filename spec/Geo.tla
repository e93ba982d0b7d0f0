--------------------------------- MODULE Geo ---------------------------------
(* Geometry over any exact numbers: points are sequences of such numbers.  The  *)
(* two instances are Exact (sparse sums of powers of two) and BigGeo (arbitrary *)
(* integers).                                                                    *)
EXTENDS Naturals, Integers, Sequences, TLC
CONSTANTS Add(_, _), Sub(_, _), Mul(_, _)

VSub(a, b) == TLCEval([i \in 1..Len(a) |-> Sub(a[i], b[i])])
Det2(a, b, c, d) == Sub(Mul(a, d), Mul(b, c))
Det3(u, v, w) ==
    Add(Sub(Mul(u[1], Det2(v[2], v[3], w[2], w[3])),
            Mul(u[2], Det2(v[1], v[3], w[1], w[3]))),
        Mul(u[3], Det2(v[1], v[2], w[1], w[2])))
Sub3(u, a, b, c) == <<u[a], u[b], u[c]>>
Det4(u, v, w, x) ==      \* rows u v w x, expanded along the first row
    Sub(Add(Sub(Mul(u[1], Det3(Sub3(v,2,3,4), Sub3(w,2,3,4), Sub3(x,2,3,4))),
                Mul(u[2], Det3(Sub3(v,1,3,4), Sub3(w,1,3,4), Sub3(x,1,3,4)))),
            Mul(u[3], Det3(Sub3(v,1,2,4), Sub3(w,1,2,4), Sub3(x,1,2,4)))),
        Mul(u[4], Det3(Sub3(v,1,2,3), Sub3(w,1,2,3), Sub3(x,1,2,3))))

Dot2(u) == Add(Mul(u[1], u[1]), Mul(u[2], u[2]))
Dot3(u) == Add(Dot2(u), Mul(u[3], u[3]))

\* > 0: a, b, c turn to the left
Orient2(a, b, c) == LET u == VSub(a, c) v == VSub(b, c) IN Det2(u[1], u[2], v[1], v[2])
\* > 0: d is below the plane of a, b, c (seen counter-clockwise from above)
Orient3(a, b, c, d) == Det3(VSub(a, d), VSub(b, d), VSub(c, d))
\* > 0: d is inside the circle of a, b, c (when these turn to the left)
InCircle(a, b, c, d) ==
    LET u == VSub(a, d) v == VSub(b, d) w == VSub(c, d)
    IN Det3(<<u[1], u[2], Dot2(u)>>, <<v[1], v[2], Dot2(v)>>, <<w[1], w[2], Dot2(w)>>)
Lift(u) == <<u[1], u[2], u[3], Dot3(u)>>
\* > 0: e is inside the sphere of a, b, c, d (when Orient3(a, b, c, d) > 0)
InSphere(a, b, c, d, e) ==
    Det4(Lift(VSub(a, e)), Lift(VSub(b, e)), Lift(VSub(c, e)), Lift(VSub(d, e)))
\* the same with given heights as fourth coordinate
Orient4(a, b, c, d, e) == Det4(VSub(a, e), VSub(b, e), VSub(c, e), VSub(d, e))

Cross(u, v) == TLCEval(<<Det2(u[2], u[3], v[2], v[3]), Det2(u[3], u[1], v[3], v[1]), Det2(u[1], u[2], v[1], v[2])>>)
Normal(a, b, c) == Cross(VSub(b, a), VSub(c, a))
DotV(u, v) == Add(Add(Mul(u[1], v[1]), Mul(u[2], v[2])), Mul(u[3], v[3]))
=============================================================================
