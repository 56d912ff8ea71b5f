------------------------------- MODULE Splines -------------------------------
(* B-splines by the recursion of Cox and de Boor over rationals, and the uniform splines of degree
   2 and 3 by their basis.                                                                       *)
EXTENDS Vec, TLC, Json, IOUtils
VARIABLES c, i
vars == <<c, i>>
Cases == ndJsonDeserialize(IOEnv.VF_IN)
CaseInit == i \in DOMAIN Cases /\ c = Cases[i]
Next == FALSE /\ UNCHANGED vars

P == c.p               \* control points
n == Len(P)
D == c.degree
\* clamped uniform knots, integers
Uniform(m, d) == [k \in 1 .. m + d + 1 |-> IF k <= d + 1 THEN I(0) ELSE IF k <= m THEN I(k - d - 1) ELSE I(m - d)]
K == IF c.knots = <<>> THEN Uniform(n, D) ELSE c.knots
-----------------------------------------------------------------------------
\* Cox - de Boor: basis function k (from 1) of degree d on the knots T; the last span which is not empty is closed
Last(T) == T[Len(T)]
RECURSIVE B(_, _, _, _)
B(T, k, d, t) ==
    IF d = 0
    THEN IF \/ RLe(T[k], t) /\ RLt(t, T[k + 1])
            \/ t = Last(T) /\ T[k + 1] = t /\ RLt(T[k], t)
         THEN I(1) ELSE I(0)
    ELSE LET l == RSub(T[k + d], T[k])
             r == RSub(T[k + d + 1], T[k + 1])
         IN RAdd(IF l = I(0) THEN I(0) ELSE RMul(RDiv(RSub(t, T[k]), l), B(T, k, d - 1, t)),
                 IF r = I(0) THEN I(0) ELSE RMul(RDiv(RSub(T[k + d + 1], t), r), B(T, k + 1, d - 1, t)))
Basis(T, m, d, t) == [k \in 1 .. m |-> B(T, k, d, t)]
Combine(W, Q) == VSum([k \in DOMAIN Q |-> VScale(W[k], Q[k])])
At(Q, T, d, t) == Combine(Basis(T, Len(Q), d, t), Q)
\* insertion of a knot by the algorithm of Boehm: the new points are on the sides of the control polygon
Count(T, t) == Cardinality({ k \in DOMAIN T : RLe(T[k], t) })
Insert(Q, T, d, t) ==
    LET l == Count(T, t)      \* T[l] <= t < T[l + 1]
        a(k) == IF k <= l - d THEN I(1)
                ELSE IF k > l THEN I(0)
                ELSE RDiv(RSub(t, T[k]), RSub(T[k + d], T[k]))
    IN [k \in 1 .. Len(Q) + 1 |-> IF k <= l - d THEN Q[k] ELSE IF k > l THEN Q[k - 1] ELSE Lerp(Q[k - 1], Q[k], a(k))]
InsertKnot(T, t) == LET l == Count(T, t) IN SubSeq(T, 1, l) \o <<t>> \o SubSeq(T, l + 1, Len(T))
Mult(T, t) == Cardinality({ k \in DOMAIN T : T[k] = t })
\* Bezier points: insert each inner knot until its multiplicity is the degree
RECURSIVE Refine(_, _, _)
Refine(Q, T, d) ==
    LET inner == { T[k] : k \in DOMAIN T } \ {T[1], Last(T)}
        todo == { t \in inner : Mult(T, t) < d }
    IN IF todo = {} THEN <<Q, T>>
       ELSE LET t == CHOOSE x \in todo : \A y \in todo : RLe(x, y)
            IN Refine(Insert(Q, T, d, t), InsertKnot(T, t), d)
BezierPoints(Q, T, d) == LET r == Refine(Q, T, d)[1]
                         IN [s \in 1 .. (Len(r) - 1) \div d |-> SubSeq(r, (s - 1) * d + 1, s * d + 1)]
RECURSIVE Casteljau(_, _)
Casteljau(Q, t) == IF Len(Q) = 1 THEN Q[1]
                   ELSE Casteljau([k \in 1 .. Len(Q) - 1 |-> Lerp(Q[k], Q[k + 1], t)], t)
\* uniform, not clamped: knots -d .. d + 1, evaluated on the span [0, 1]
Plain(d) == [k \in 1 .. 2 * (d + 1) |-> I(k - d - 1)]
PlainBezier(Q, d) ==
    LET T0 == Plain(d)
        Ins(X, t) == <<Insert(X[1], X[2], d, t), InsertKnot(X[2], t)>>
        RECURSIVE Up(_, _, _)
        Up(X, t, m) == IF m = 0 THEN X ELSE Up(Ins(X, t), t, m - 1)
        X == Up(Up(<<Q, T0>>, I(0), d - 1), I(1), d - 1)
        f == Count(X[2], RNeg(<<1, 2>>))   \* knots before 0
    IN [k \in 1 .. d + 1 |-> X[1][f - 1 + k]]

Obs ==
    IF c.kind = "plain"
    THEN [ i |-> i, at |-> At(P, Plain(D), D, c.t), bezier |-> PlainBezier(P, D), start |-> At(P, Plain(D), D, I(0)),
           end |-> Casteljau(PlainBezier(P, D), I(1)) ]
    ELSE [ i |-> i, knots |-> K, at |-> At(P, K, D, c.t), basis |-> Basis(K, n, D, c.t),
           start |-> At(P, K, D, K[1]), end |-> At(P, K, D, Last(K)),
           inserted |-> Insert(P, K, D, c.u), newknots |-> InsertKnot(K, c.u), mult |-> Mult(K, c.u),
           uat |-> At(P, K, D, c.u),
           bezier |-> IF c.knots = <<>> THEN BezierPoints(P, K, D) ELSE <<>> ]
Mirror(T) == [k \in DOMAIN T |-> RSub(RAdd(T[1], Last(T)), T[Len(T) + 1 - k])]
Laws == IF c.kind = "plain"
        THEN /\ RSum(Basis(Plain(D), n, D, c.t)) = I(1)
             /\ Casteljau(PlainBezier(P, D), c.t) = At(P, Plain(D), D, c.t)
        ELSE /\ RSum(Basis(K, n, D, c.t)) = I(1)
             /\ \A k \in 1 .. n : Basis(K, n, D, c.t)[k][1] >= 0
             /\ At(P, K, D, K[1]) = P[1] /\ At(P, K, D, Last(K)) = P[n]
             /\ At(Insert(P, K, D, c.u), InsertKnot(K, c.u), D, c.t) = At(P, K, D, c.t)
             /\ Mult(K, c.t) = 0 => At(Reverse(P), Mirror(K), D, RSub(RAdd(K[1], Last(K)), c.t)) = At(P, K, D, c.t)
             /\ c.knots = <<>> =>
                   LET s == c.t[1] \div c.t[2]
                   IN s < n - D => Casteljau(BezierPoints(P, K, D)[s + 1], RSub(c.t, I(s))) = At(P, K, D, c.t)
Emit == PrintT(ToJson(Obs))
=============================================================================
