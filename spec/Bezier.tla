------------------------------- MODULE Bezier -------------------------------
(* Bezier curves of degree 2 and 3 by the algorithm of De Casteljau, over rationals.             *)
EXTENDS Vec, TLC, Json, IOUtils
VARIABLES c, i
vars == <<c, i>>
Cases == ndJsonDeserialize(IOEnv.VF_IN)
CaseInit == i \in DOMAIN Cases /\ c = Cases[i]
Next == FALSE /\ UNCHANGED vars

-----------------------------------------------------------------------------
\* one round of interpolations
Round(P, t) == [k \in 1 .. Len(P) - 1 |-> Lerp(P[k], P[k + 1], t)]
RECURSIVE At(_, _)
At(P, t) == IF Len(P) = 1 THEN P[1] ELSE At(Round(P, t), t)
RECURSIVE LeftPart(_, _)
LeftPart(P, t) == IF Len(P) = 1 THEN P ELSE <<P[1]>> \o LeftPart(Round(P, t), t)
RightPart(P, t) == Reverse(LeftPart(Reverse(P), RSub(I(1), t)))
Between(P, t1, t2) == LeftPart(RightPart(P, t1), RDiv(RSub(t2, t1), RSub(I(1), t1)))
\* hodograph divided by the degree
Hodograph(P) == [k \in 1 .. Len(P) - 1 |-> VSub(P[k + 1], P[k])]
Tangent(P, t) == At(Hodograph(P), t)
Elevate(P) == LET d == Len(P)
              IN [k \in 1 .. d + 1 |-> IF k = 1 THEN P[1] ELSE IF k = d + 1 THEN P[d]
                                       ELSE Lerp(P[k], P[k - 1], <<k - 1, d>>)]
RECURSIVE Choose(_, _)
Choose(m, k) == IF k = 0 \/ k = m THEN 1 ELSE Choose(m - 1, k - 1) + Choose(m - 1, k)
\* integral of B(k, m) B(l, p) over [0, 1]
BInt(k, m, l, p) == R(Choose(m, k) * Choose(p, l), Choose(m + p, k + l) * (m + p + 1))
\* area between the curve and its chord: half of the integral of x dy - y dx along the curve and back along the chord
Area(P) ==
    LET d == Len(P) - 1
        D == Hodograph(P)
        RECURSIVE S(_)
        S(m) == IF m = 0 THEN I(0)
                ELSE LET k == (m - 1) \div d
                         l == (m - 1) % d
                     IN RAdd(S(m - 1), RMul(Cross(P[k + 1], D[l + 1]), RMul(I(d), BInt(k, d, l, d - 1))))
    IN RDiv(RAdd(S((d + 1) * d), Cross(P[d + 1], P[1])), I(2))
\* the control polygons of 8 pieces
Pieces(P) == LET h == <<1, 2>>
                 Halve(Q) == <<LeftPart(Q, h), RightPart(Q, h)>>
                 A == Halve(P)
                 B == Halve(A[1]) \o Halve(A[2])
             IN Halve(B[1]) \o Halve(B[2]) \o Halve(B[3]) \o Halve(B[4])
\* side of a point with respect to the line of the case, <<point, vector>>
Side(p) == Cross(c.line[2], VSub(p, c.line[1]))

P == c.p
Obs == [ i |-> i, p |-> P,
         at |-> At(P, c.t), tangent |-> Tangent(P, c.t),
         left |-> LeftPart(P, c.t), right |-> RightPart(P, c.t), between |-> Between(P, c.t, c.u),
         elevated |-> Elevate(P), area |-> Area(P), middle |-> At(P, Half),
         pieces |-> Pieces(P),
         sides |-> [k \in 1 .. 17 |-> Sign(Side(At(P, <<k - 1, 16>>))[1])],
         points |-> [k \in 1 .. 17 |-> At(P, <<k - 1, 16>>)] ]

\* Theorems
Laws == LET l == LeftPart(P, c.t)
            r == RightPart(P, c.t)
            n == Len(P)
        IN /\ l[n] = At(P, c.t) /\ r[1] = At(P, c.t) /\ l[1] = P[1] /\ r[n] = P[n]
           /\ At(l, Half) = At(P, RMul(Half, c.t))
           /\ At(Elevate(P), c.t) = At(P, c.t)
           /\ At(Reverse(P), RSub(I(1), c.t)) = At(P, c.t)
           /\ RAdd(RAdd(Area(l), Area(r)), RDiv(Orient(P[1], At(P, c.t), P[n]), I(2))) = Area(P)
           /\ Area(Elevate(P)) = Area(P)
           \* the curve lies in the box of its control points
           /\ \A k \in {1, 2} : RLe(Box(P)[k], At(P, c.t)[k]) /\ RLe(At(P, c.t)[k], Box(P)[k + 2])
Emit == PrintT(ToJson(Obs))
=============================================================================
