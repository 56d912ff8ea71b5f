-------------------------------- MODULE Vec --------------------------------
(* Plane vectors with exact rational coordinates: <<x, y>>, x and y rationals of Rat.            *)
EXTENDS Rat, FiniteSets

V(x, y) == <<I(x), I(y)>>
Zero2 == V(0, 0)
VAdd(u, v) == <<RAdd(u[1], v[1]), RAdd(u[2], v[2])>>
VNeg(u) == <<RNeg(u[1]), RNeg(u[2])>>
VSub(u, v) == VAdd(u, VNeg(v))
VScale(k, u) == <<RMul(k, u[1]), RMul(k, u[2])>>
Dot(u, v) == RAdd(RMul(u[1], v[1]), RMul(u[2], v[2]))
Cross(u, v) == RSub(RMul(u[1], v[2]), RMul(u[2], v[1]))
Sq(u) == Dot(u, u)
IsZero(u) == u = Zero2
\* quarter turns in the counterclockwise direction
RECURSIVE Turn(_, _)
Turn(u, n) == IF n = 0 THEN u ELSE Turn(<<RNeg(u[2]), u[1]>>, n - 1)
Lerp(u, v, t) == VAdd(VScale(RSub(I(1), t), u), VScale(t, v))
Half == <<1, 2>>
Mid(u, v) == VScale(Half, VAdd(u, v))

\* signed square: a total order isomorphism that keeps the exactness of square roots
SSq(a) == <<Sign(a[1]) * a[1] * a[1], a[2] * a[2]>>

\* rational rotation: (c, s) with c^2 + s^2 = 1
RotateCS(u, c, s) == <<RSub(RMul(c, u[1]), RMul(s, u[2])), RAdd(RMul(s, u[1]), RMul(c, u[2]))>>
Conj(u) == <<u[1], RNeg(u[2])>>

\* orientation of three points: twice the signed area
Orient(a, b, c) == Cross(VSub(b, a), VSub(c, a))
Left(a, b, c) == Orient(a, b, c)[1] > 0
Right(a, b, c) == Orient(a, b, c)[1] < 0
Aligned(a, b, c) == Orient(a, b, c)[1] = 0

RECURSIVE VSum(_)
VSum(s) == IF s = <<>> THEN Zero2 ELSE VAdd(Head(s), VSum(Tail(s)))
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN I(0) ELSE RAdd(Head(s), RSum(Tail(s)))

\* is c in the closed segment [a, b]
OnSegment(a, b, c) == /\ Aligned(a, b, c)
                      /\ RLe(RMin(a[1], b[1]), c[1]) /\ RLe(c[1], RMax(a[1], b[1]))
                      /\ RLe(RMin(a[2], b[2]), c[2]) /\ RLe(c[2], RMax(a[2], b[2]))
\* do the closed segments [a, b] and [c, d] meet
SegmentsMeet(a, b, c, d) ==
    \/ /\ RSign(Orient(a, b, c)) * RSign(Orient(a, b, d)) < 0
       /\ RSign(Orient(c, d, a)) * RSign(Orient(c, d, b)) < 0
    \/ OnSegment(a, b, c) \/ OnSegment(a, b, d) \/ OnSegment(c, d, a) \/ OnSegment(c, d, b)

\* bounding box of a sequence of points: <<xmin, ymin, xmax, ymax>>
RECURSIVE MinOf(_)
MinOf(s) == IF Len(s) = 1 THEN s[1] ELSE RMin(s[1], MinOf(Tail(s)))
RECURSIVE MaxOf(_)
MaxOf(s) == IF Len(s) = 1 THEN s[1] ELSE RMax(s[1], MaxOf(Tail(s)))
Xs(P) == [i \in DOMAIN P |-> P[i][1]]
Ys(P) == [i \in DOMAIN P |-> P[i][2]]
Box(P) == <<MinOf(Xs(P)), MinOf(Ys(P)), MaxOf(Xs(P)), MaxOf(Ys(P))>>

Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
=============================================================================
