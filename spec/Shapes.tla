------------------------------- MODULE Shapes -------------------------------
(* Triangles, rectangles given by two opposite corners and polylines, with a point q.            *)
EXTENDS Vec, TLC, Json, IOUtils
VARIABLES c
Cases == ndJsonDeserialize(IOEnv.VF_IN)
CaseInit == \E k \in DOMAIN Cases : c = Cases[k]
Next == FALSE /\ UNCHANGED c

P == c.p
q == c.q
n == Len(P)
-----------------------------------------------------------------------------
Foot(p, v, x) == RDiv(Dot(VSub(x, p), v), Sq(v))
Clamp(s) == IF RLt(s, I(0)) THEN I(0) ELSE IF RLt(I(1), s) THEN I(1) ELSE s
Dist2(p, r, x) == IF p = r THEN Sq(VSub(x, p))
                  ELSE Sq(VSub(x, VAdd(p, VScale(Clamp(Foot(p, VSub(r, p), x)), VSub(r, p)))))
\* orientation of three points; when they are aligned: -1 when p0 is strictly between the others,
\* 0 when p2 is in [p0, p1], else 1
Orientation(a, b, d) ==
    IF Left(a, b, d) THEN 1
    ELSE IF Right(a, b, d) THEN -1
    ELSE IF Dot(VSub(b, a), VSub(d, a))[1] < 0 THEN -1
    ELSE IF OnSegment(a, b, d) THEN 0
    ELSE 1

TriangleObs ==
    LET l == <<Sq(VSub(P[2], P[1])), Sq(VSub(P[3], P[2])), Sq(VSub(P[1], P[3]))>>
        different == Cardinality({l[1], l[2], l[3]})
        \* sign of the cosine of each angle
        cosine == <<RSign(Dot(VSub(P[2], P[1]), VSub(P[3], P[1]))), RSign(Dot(VSub(P[3], P[2]), VSub(P[1], P[2]))),
                    RSign(Dot(VSub(P[1], P[3]), VSub(P[2], P[3])))>>
    IN [ c |-> c, o |-> Orientation(P[1], P[2], P[3]),
         flat |-> Aligned(P[1], P[2], P[3]),
         area |-> RDiv(RAbs(Orient(P[1], P[2], P[3])), I(2)),
         edges |-> l, isosceles |-> different = 2, scalene |-> different = 3,
         right |-> \E k \in 1 .. 3 : cosine[k] = 0,
         obtuse |-> \E k \in 1 .. 3 : cosine[k] < 0,
         acute |-> \A k \in 1 .. 3 : cosine[k] > 0,
         inside |-> \/ ~ \E k \in 1 .. 3 : Right(P[k], P[(k % 3) + 1], q)
                    \/ ~ \E k \in 1 .. 3 : Left(P[k], P[(k % 3) + 1], q) ]
RectangleObs ==
    LET w == RAbs(RSub(P[2][1], P[1][1]))
        h == RAbs(RSub(P[2][2], P[1][2]))
        b == Box(P)
    IN [ c |-> c, corners |-> <<P[1], <<P[1][1], P[2][2]>>, P[2], <<P[2][1], P[1][2]>>>>,
         area |-> RMul(w, h), perimeter |-> RMul(I(2), RAdd(w, h)), diagonal |-> VSub(P[2], P[1]),
         radius |-> <<VSub(P[1], P[2]), VAdd(P[1], P[2])>>, offset |-> VAdd(P[1], P[2]),
         inside |-> RLe(b[1], q[1]) /\ RLe(q[1], b[3]) /\ RLe(b[2], q[2]) /\ RLe(q[2], b[4]) ]
PolylineObs ==
    [ c |-> c, edges |-> [k \in 1 .. n - 1 |-> Sq(VSub(P[k + 1], P[k]))],
      dist2 |-> MinOf([k \in 1 .. n - 1 |-> Dist2(P[k], P[k + 1], q)]), box |-> Box(P) ]

Laws == /\ c.kind = "triangle" =>
              LET o == TriangleObs
              IN /\ ~ o.flat => /\ o.obtuse => ~ o.acute
                                /\ o.right => ~ o.obtuse /\ ~ o.acute
                                /\ o.o = -Orientation(P[2], P[1], P[3])
                                \* barycentric criterion
                                /\ o.inside <=> RAdd(RAdd(RAbs(Orient(P[1], P[2], q)), RAbs(Orient(P[2], P[3], q))),
                                                     RAbs(Orient(P[3], P[1], q))) = RMul(I(2), o.area)
                 /\ (P[3] # P[2] /\ P[3] # P[1]) => (o.o = 0 <=> OnSegment(P[1], P[2], P[3]))
        /\ c.kind = "polyline" =>
              (PolylineObs.dist2 = I(0) <=> \E k \in 1 .. n - 1 : OnSegment(P[k], P[k + 1], q))
Emit == PrintT(ToJson(CASE c.kind = "triangle" -> TriangleObs
                        [] c.kind = "rectangle" -> RectangleObs
                        [] c.kind = "polyline" -> PolylineObs))
=============================================================================
