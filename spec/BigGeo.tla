-------------------------------- MODULE BigGeo --------------------------------
(* Geometry over arbitrary integers, and points given implicitly in homogeneous  *)
(* coordinates <<x, y, z, w>> computed from what defines them.                    *)
EXTENDS BigInt

\* carried digits with the signed rest folded into the top digit
RECURSIVE Fold(_)
Fold(c) ==
    LET n == Len(c)
    IN IF n > 1 /\ c[n] \in {-1, 0} THEN Fold([i \in 1..(n - 1) |-> IF i = n - 1 THEN c[i] + Base * c[n] ELSE c[i]])
       ELSE c
NAdd(p, q) == TLCEval(Fold(Carry(BAdd(p, q))))
NSub(p, q) == TLCEval(Fold(Carry(BSub(p, q))))
NMul(p, q) == TLCEval(Fold(Carry(BMul(p, q))))
INSTANCE Geo WITH Add <- NAdd, Sub <- NSub, Mul <- NMul

VAdd(u, v) == TLCEval([i \in 1..Len(u) |-> NAdd(u[i], v[i])])
VMul(u, s) == TLCEval([i \in 1..Len(u) |-> NMul(u[i], s)])

\* where the line p q meets the plane r s t
MeetLine(p, q, r, s, t) ==
    LET n == Normal(r, s, t)
        d == VSub(q, p)
        w == DotV(d, n)
        x == VAdd(VMul(p, w), VMul(d, DotV(VSub(r, p), n)))
    IN <<x[1], x[2], x[3], w>>
\* where the planes of three triangles meet
MeetPlanes(p) ==
    LET n1 == Normal(p[1], p[2], p[3]) n2 == Normal(p[4], p[5], p[6]) n3 == Normal(p[7], p[8], p[9])
        x == VAdd(VAdd(VMul(Cross(n2, n3), DotV(n1, p[1])), VMul(Cross(n3, n1), DotV(n2, p[4]))),
                  VMul(Cross(n1, n2), DotV(n3, p[7])))
    IN <<x[1], x[2], x[3], Det3(n1, n2, n3)>>
Hom(x) ==
    CASE x.t = "E" -> <<x.p[1][1], x.p[1][2], x.p[1][3], <<1>>>>
      [] x.t = "L" -> MeetLine(x.p[1], x.p[2], x.p[3], x.p[4], x.p[5])
      [] x.t = "T" -> MeetPlanes(x.p)

\* the same signs as Orient2, Orient3 and a difference of coordinates, for points with w # 0
W(a) == BSgn(a[4])
HSign(x) == BSgn(Carry(x))
HOrient3(a, b, c, d) == W(a) * W(b) * W(c) * W(d) * HSign(Det4(a, b, c, d))
HOrient2(a, b, c, i, j) ==
    W(a) * W(b) * W(c) * HSign(Det3(<<a[i], a[j], a[4]>>, <<b[i], b[j], b[4]>>, <<c[i], c[j], c[4]>>))
HDiff(a, b, i) == W(a) * W(b) * HSign(NSub(NMul(a[i], b[4]), NMul(b[i], a[4])))
=============================================================================
