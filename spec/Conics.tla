------------------------------- MODULE Conics -------------------------------
(* Circles, ellipses and their arcs over rationals: the directions are rational points of the unit circle.
   An arc is the set of directions met when turning counterclockwise from d0 to d1.               *)
EXTENDS Vec, TLC, Json, IOUtils, SequencesExt
VARIABLES c, i
vars == <<c, i>>
Cases == ndJsonDeserialize(IOEnv.VF_IN)
CaseInit == i \in DOMAIN Cases /\ c = Cases[i]
Next == FALSE /\ UNCHANGED vars

-----------------------------------------------------------------------------
\* Directions: product = sum of the angles, conjugate = opposite angle
Times(a, b) == RotateCS(a, b[1], b[2])
Unit == V(1, 0)
IsUnit(d) == Sq(d) = I(1)
\* 0 for the angles in [0, 180[, 1 for the angles in [180, 360[
HalfTurn(d) == IF d[2][1] > 0 \/ (d[2][1] = 0 /\ d[1][1] > 0) THEN 0 ELSE 1
\* order of the angles in [0, 360[
AngleLe(a, b) == \/ HalfTurn(a) < HalfTurn(b)
                 \/ HalfTurn(a) = HalfTurn(b) /\ Cross(a, b)[1] >= 0
InArc(d0, d1, q) == AngleLe(Times(q, Conj(d0)), Times(d1, Conj(d0)))
IsLarge(d0, d1) == Cross(d0, d1)[1] < 0

-----------------------------------------------------------------------------
\* Ellipse: center, radii a and b, direction of the first axis
FromFrame(e, p) == VAdd(e.center, RotateCS(p, e.rot[1], e.rot[2]))
ToFrame(e, p) == RotateCS(VSub(p, e.center), e.rot[1], RNeg(e.rot[2]))
OnEllipse(e, d) == <<RMul(e.a, d[1]), RMul(e.b, d[2])>>                 \* in the frame
At(e, d) == FromFrame(e, OnEllipse(e, d))
\* negative inside, zero on the ellipse
FrameResidual(e, q) == RSub(RAdd(RSq(RDiv(q[1], e.a)), RSq(RDiv(q[2], e.b))), I(1))
Residual(e, p) == FrameResidual(e, ToFrame(e, p))
FrameTangent(e, d) == <<RNeg(RMul(e.a, d[2])), RMul(e.b, d[1])>>
\* half extents of the bounding box, squared
Extent2(e) == << RAdd(RSq(RMul(e.a, e.rot[1])), RSq(RMul(e.b, e.rot[2]))),
                 RAdd(RSq(RMul(e.a, e.rot[2])), RSq(RMul(e.b, e.rot[1]))) >>
\* normal (not unitary) in the frame
NormalOf(e, d) == <<RMul(e.b, d[1]), RMul(e.a, d[2])>>
\* point at k times the normal, its distance to the ellipse is known when it is outside or nearer than the least
\* radius of curvature
Offset(e, d, k) == VAdd(OnEllipse(e, d), VScale(k, NormalOf(e, d)))
OffsetDistance2(e, d, k) == RMul(RSq(k), Sq(NormalOf(e, d)))
OffsetKnown(e, d, k) == \/ k[1] >= 0
                        \/ LET m == RDiv(RSq(RMin(e.a, e.b)), RMax(e.a, e.b)) IN RLt(OffsetDistance2(e, d, k), RSq(m))
\* a point of the major axis beyond the center of curvature, its closest points are at the directions d and its symmetric
AxisPoint(e, d) == IF RLe(e.b, e.a)
                   THEN <<RMul(RDiv(RSub(RSq(e.a), RSq(e.b)), e.a), d[1]), I(0)>>
                   ELSE <<I(0), RMul(RDiv(RSub(RSq(e.b), RSq(e.a)), e.b), d[2])>>
AxisDistance2(e, d) == Sq(VSub(OnEllipse(e, d), AxisPoint(e, d)))
\* the other points of the ellipse which see it along their normal
Mirrored(e, d) == IF RLe(e.b, e.a) THEN Conj(d) ELSE VNeg(Conj(d))
Vertices == {Unit, V(0, 1), V(-1, 0), V(0, -1)}
AxisStationary(e, d) == {d, Mirrored(e, d)} \cup IF RLe(e.b, e.a) THEN {Unit, V(-1, 0)} ELSE {V(0, 1), V(0, -1)}
RMinOf(S) == CHOOSE x \in S : \A y \in S : RLe(x, y)
\* squared distance of the point of the axis to an arc: to its ends, or to a point which sees it along its normal
AxisArcDistance2(e, d, d0, d1) ==
    RMinOf({ Sq(VSub(OnEllipse(e, x), AxisPoint(e, d))) : x \in {d0, d1} \cup { y \in AxisStationary(e, d) : InArc(d0, d1, y) } })

\* bounding box of an arc whose axes are those of the plane
OnAxis(d) == d[1][1] = 0 \/ d[2][1] = 0
ArcPoints(e, d0, d1) ==
    <<At(e, d0), At(e, d1)>> \o
    SetToSeq({At(e, d) : d \in {x \in {Unit, V(0, 1), V(-1, 0), V(0, -1)} : InArc(d0, d1, x)}})
ArcBox(e, d0, d1) == Box(ArcPoints(e, d0, d1))

\* Intersection with the line (u, v) of the frame: the ellipse is mapped to a circle of radius a b
Squash(e, q) == <<RMul(e.b, q[1]), RMul(e.a, q[2])>>
Foot(e, u, v) == LET u1 == Squash(e, u)
                     w == VSub(Squash(e, v), u1)
                 IN VSub(u1, VScale(RDiv(Dot(u1, w), Sq(w)), w))
LineObs(e, u, v) ==
    LET u1 == Squash(e, u)
        w == VSub(Squash(e, v), u1)
        foot == Foot(e, u, v)
        disc == RSub(RMul(RSq(RMul(e.a, e.b)), Sq(w)), RSq(Cross(u1, w)))
    IN [ n |-> IF disc[1] < 0 THEN 0 ELSE IF disc[1] = 0 THEN 1 ELSE 2,
         ends |-> <<FromFrame(e, u), FromFrame(e, v)>>,
         middle |-> FromFrame(e, <<RDiv(foot[1], e.b), RDiv(foot[2], e.a)>>),
         chord2 |-> RMul(RDiv(RMul(I(4), RDiv(disc, Sq(w))), Sq(w)), Sq(VSub(v, u))) ]

\* Intersection of two circles
CirclesObs(p, r, q, s) ==
    LET v == VSub(q, p)
        d2 == Sq(v)
        x == RDiv(RSub(RAdd(d2, RSq(r)), RSq(s)), RMul(I(2), d2))      \* abscissa of the chord divided by the distance
        y2 == RSub(RSq(r), RMul(RSq(x), d2))
    IN IF d2[1] = 0 THEN [n |-> 0, middle |-> p, chord2 |-> I(0), exact |-> TRUE]
       ELSE [n |-> IF y2[1] < 0 THEN 0 ELSE IF y2[1] = 0 THEN 1 ELSE 2,
             middle |-> VAdd(p, VScale(x, v)), chord2 |-> RMul(I(4), y2), exact |-> RIsSquare(d2)]

-----------------------------------------------------------------------------
\* Transformations: similarities
Image(op, p) ==
    CASE op[1] = "rotate" -> RotateCS(p, op[2][1], op[2][2])
      [] op[1] = "mirror" -> VNeg(p)
      [] op[1] = "x_mirror" -> <<RNeg(p[1]), p[2]>>
      [] op[1] = "y_mirror" -> <<p[1], RNeg(p[2])>>
      [] op[1] = "scale" -> VScale(op[2], p)
      [] op[1] = "translate" -> VAdd(p, op[2])

-----------------------------------------------------------------------------
E == c.e
CircleObs ==
    LET p == VAdd(E.center, VScale(c.k, c.q))
        in == InArc(c.d0, c.d1, c.q)
    IN [ i |-> i, at |-> At(E, c.q), tangent |-> Turn(c.q, 1), inside |-> RSign(Residual(E, c.p)),
         inarc |-> in, point |-> p, distance |-> RAbs(RSub(c.k, E.a)),
         ends |-> <<At(E, c.d0), At(E, c.d1)>>,
         ends2 |-> RMin(Sq(VSub(p, At(E, c.d0))), Sq(VSub(p, At(E, c.d1)))),
         large |-> IsLarge(c.d0, c.d1), box |-> ArcBox(E, c.d0, c.d1),
         line |-> LineObs(E, c.line[1], c.line[2]),
         circles |-> CirclesObs(E.center, E.a, c.center2, c.radius2) ]
EllipseObs ==
    [ i |-> i, at |-> At(E, c.q), inside |-> RSign(Residual(E, c.p)), residual |-> Residual(E, c.p),
      frame |-> ToFrame(E, c.p),
      extent2 |-> Extent2(E), box |-> IF OnAxis(E.rot) THEN ArcBox(E, c.d0, c.d1) ELSE <<>>, ends |-> <<At(E, c.d0), At(E, c.d1)>>,
      known |-> OffsetKnown(E, c.q, c.k), offset |-> FromFrame(E, Offset(E, c.q, c.k)),
      offset2 |-> OffsetDistance2(E, c.q, c.k),
      axis |-> FromFrame(E, AxisPoint(E, c.q)), axis2 |-> AxisDistance2(E, c.q),
      axisarc2 |-> AxisArcDistance2(E, c.q, c.d0, c.d1), inarc |-> InArc(c.d0, c.d1, c.q),
      line |-> LineObs(E, c.line[1], c.line[2]) ]
\* an arc whose sweep goes counterclockwise from d0 to d1, or clockwise from d1 to d0
SvgObs ==
    [ i |-> i, p1 |-> At(E, IF c.sweep THEN c.d0 ELSE c.d1), p2 |-> At(E, IF c.sweep THEN c.d1 ELSE c.d0),
      large |-> IsLarge(c.d0, c.d1), opposite |-> c.d0 = VNeg(c.d1) ]
\* the arc is centred on the direction m, its half aperture is h
MoveObs ==
    LET d0 == Times(c.m, Conj(c.h))
        d1 == Times(c.m, c.h)
    IN [ i |-> i, center |-> Image(c.op, E.center),
         ends |-> <<Image(c.op, At(E, d0)), Image(c.op, At(E, d1))>>,
         middle |-> Image(c.op, At(E, c.m)),
         opposite |-> Image(c.op, At(E, VNeg(c.m))),
         d0 |-> d0, d1 |-> d1 ]
\* an angular domain in degrees, counterclockwise from start to stop
DomainObs ==
    LET closed == Abs(c.stop - c.start) >= 360
        length == IF closed THEN 360 ELSE (c.stop - c.start) % 360
    IN [ i |-> i, closed |-> closed, over |-> Abs(c.stop - c.start) > 360, length |-> length,
         inside |-> [k \in DOMAIN c.at |-> closed \/ (c.at[k] - c.start) % 360 <= length] ]
Emit == PrintT(ToJson(CASE c.kind = "circle" -> CircleObs
                        [] c.kind = "ellipse" -> EllipseObs
                        [] c.kind = "svg" -> SvgObs
                        [] c.kind = "move" -> MoveObs
                        [] c.kind = "domain" -> DomainObs))

-----------------------------------------------------------------------------
\* Theorems
Within(p, b) == RLe(b[1], p[1]) /\ RLe(p[1], b[3]) /\ RLe(b[2], p[2]) /\ RLe(p[2], b[4])
LineLaw == LET l == LineObs(E, c.line[1], c.line[2])
               f == Foot(E, c.line[1], c.line[2])
           IN /\ l.n > 0 <=> RLe(Sq(f), RSq(RMul(E.a, E.b)))
              /\ Dot(f, VSub(Squash(E, c.line[2]), Squash(E, c.line[1]))) = I(0)
Laws ==
    CASE c.kind = "circle" ->
           /\ IsUnit(c.q) /\ IsUnit(c.d0) /\ IsUnit(c.d1)
           \* two complementary arcs cover the circle and share their ends
           /\ InArc(c.d0, c.d1, c.q) \/ InArc(c.d1, c.d0, c.q)
           /\ c.d0 # c.d1 => ((InArc(c.d0, c.d1, c.q) /\ InArc(c.d1, c.d0, c.q)) <=> c.q \in {c.d0, c.d1})
           /\ c.d0 # c.d1 /\ c.d0 # VNeg(c.d1) => IsLarge(c.d0, c.d1) # IsLarge(c.d1, c.d0)
           /\ Residual(E, At(E, c.q)) = I(0)
           /\ InArc(c.d0, c.d1, c.q) => Within(At(E, c.q), ArcBox(E, c.d0, c.d1))
           /\ (c.q \in {c.d0, c.d1} => LET o == CircleObs IN o.ends2 = RSq(o.distance))
           \* a closed disk contains the middle of its chords
           /\ LineLaw
      [] c.kind = "ellipse" ->
           /\ IsUnit(E.rot) /\ Residual(E, At(E, c.q)) = I(0)
           /\ ToFrame(E, FromFrame(E, c.p)) = c.p
           /\ OnAxis(E.rot) /\ InArc(c.d0, c.d1, c.q) => Within(At(E, c.q), ArcBox(E, c.d0, c.d1))
           \* the offset moves along the normal
           /\ Dot(VSub(Offset(E, c.q, c.k), OnEllipse(E, c.q)), FrameTangent(E, c.q)) = I(0)
           /\ c.k[1] > 0 => RSign(FrameResidual(E, Offset(E, c.q, c.k))) > 0
           \* the ellipse is inside its bounding box
           /\ LET d == VSub(At(E, c.q), E.center) IN RLe(RSq(d[1]), Extent2(E)[1]) /\ RLe(RSq(d[2]), Extent2(E)[2])
           /\ LineLaw
           \* a point of the axis is seen along the normal by its stationary points, one of two complementary arcs has the closest one
           /\ E.a # E.b => \A d \in AxisStationary(E, c.q) : Dot(VSub(OnEllipse(E, d), AxisPoint(E, c.q)), FrameTangent(E, d)) = I(0)
           /\ RMin(AxisArcDistance2(E, c.q, c.d0, c.d1), AxisArcDistance2(E, c.q, c.d1, c.d0)) = AxisDistance2(E, c.q)
           /\ \A d \in {c.q} \cup Vertices : InArc(c.d0, c.d1, d) =>
                  RLe(AxisArcDistance2(E, c.q, c.d0, c.d1), Sq(VSub(OnEllipse(E, d), AxisPoint(E, c.q))))
           \* the other vertices are not nearer to the point of the axis
           /\ \A d \in {Unit, V(0, 1), V(-1, 0), V(0, -1), VNeg(c.q)} :
                  RLe(AxisDistance2(E, c.q), Sq(VSub(OnEllipse(E, d), AxisPoint(E, c.q))))
      [] c.kind = "move" ->
           LET d0 == Times(c.m, Conj(c.h)) d1 == Times(c.m, c.h)
           IN InArc(d0, d1, c.m) /\ ~InArc(d0, d1, VNeg(c.m))
      [] OTHER -> TRUE
=============================================================================
