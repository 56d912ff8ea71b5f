------------------------------- MODULE DxfFile -------------------------------
(* The entities of a DXF file are read one after the other; each gives a geometric object, or nothing when its type is not known.
   State: k entities of the file c.entities are read, items is the sequence of the objects [own, t, pts, e, d0, d1, parts]:
   segment (pts), circle and ellipse (e, counterclockwise from d0 to d1, whole when d0 = <<>>), spline (the Bezier points of its parts),
   polyline (its parts: a segment, or an arc of center and squared radius which goes from pts[1] to pts[3] by pts[2]).       *)
EXTENDS Conics
CONSTANTS Depth
S == INSTANCE Splines
VARIABLES k, items
dvars == <<c, i, k, items>>

Item(own, t) == [own |-> own, t |-> t, pts |-> <<>>, e |-> <<>>, d0 |-> <<>>, d1 |-> <<>>, parts |-> <<>>, closed |-> FALSE]
Known == {"LINE", "CIRCLE", "ARC", "ELLIPSE", "LWPOLYLINE", "SPLINE"}

\* Side of a polyline from p to q with the bulge b, the tangent of a quarter of the angle of the arc, positive when it is counterclockwise
LeftOf(v) == <<RNeg(v[2]), v[1]>>
SideOf(p, q, b) ==
    LET v == VSub(q, p) m == Lerp(p, q, R(1, 2)) IN
    IF b = I(0) THEN [t |-> "segment", pts |-> <<p, q>>, center |-> <<>>, r2 |-> I(0), b |-> b]
    ELSE LET o == VAdd(m, VScale(RDiv(RSub(I(1), RSq(b)), RMul(I(4), b)), LeftOf(v)))
         IN [t |-> "arc", pts |-> <<p, VSub(m, VScale(RDiv(b, I(2)), LeftOf(v))), q>>, center |-> o, r2 |-> Sq(VSub(p, o)), b |-> b]
Sides(x) == LET n == Len(x.pts) IN
            [j \in 1..(IF x.closed THEN n ELSE n - 1) |-> SideOf(x.pts[j], x.pts[(j % n) + 1], x.bulges[j])]
\* An arc or a polyline is drawn in the plane (x, y), or in the plane (-x, y) when it is seen from below;
\* an ellipse is in the plane (x, y) but its parameter is then clockwise
Mirror(p) == <<RNeg(p[1]), p[2]>>
Seen2(x) ==
    IF x.t \notin {"CIRCLE", "ARC", "ELLIPSE", "LWPOLYLINE"} \/ ~x.below THEN x
    ELSE CASE x.t = "CIRCLE" -> [x EXCEPT !.center = Mirror(@)]
           [] x.t = "ARC" -> [x EXCEPT !.center = Mirror(@), !.d0 = Mirror(x.d1), !.d1 = Mirror(x.d0)]
           [] x.t = "ELLIPSE" -> IF x.d0 = <<>> THEN x ELSE [x EXCEPT !.d0 = Conj(x.d1), !.d1 = Conj(x.d0)]
           [] x.t = "LWPOLYLINE" -> [x EXCEPT !.pts = [j \in DOMAIN @ |-> Mirror(@[j])], !.bulges = [j \in DOMAIN @ |-> RNeg(@[j])]]
Object(own, y) == LET x == Seen2(y) IN
    CASE x.t = "LINE" -> [Item(own, "segment") EXCEPT !.pts = x.pts]
      [] x.t \in {"CIRCLE", "ARC"} -> [Item(own, "circle") EXCEPT !.e = [center |-> x.center, a |-> x.a, b |-> x.a, rot |-> Unit], !.d0 = x.d0, !.d1 = x.d1]
      [] x.t = "ELLIPSE" -> [Item(own, "ellipse") EXCEPT !.e = [center |-> x.center, a |-> x.a, b |-> RMul(x.a, x.ratio), rot |-> x.rot], !.d0 = x.d0, !.d1 = x.d1]
      [] x.t = "LWPOLYLINE" -> [Item(own, "polyline") EXCEPT !.parts = Sides(x), !.closed = x.closed]
      [] x.t = "SPLINE" -> [Item(own, "spline") EXCEPT !.pts = x.pts, !.closed = x.closed,
                                                      !.parts = S!BezierPoints(x.pts, IF x.knots = <<>> THEN S!Uniform(Len(x.pts), x.degree) ELSE x.knots, x.degree)]

-----------------------------------------------------------------------------
DxfInit == i \in DOMAIN Cases /\ c = Cases[i] /\ k = 0 /\ items = <<>>
File == c.entities
Read == /\ k < Len(File) /\ k' = k + 1
        /\ items' = IF File[k + 1].t \in Known THEN Append(items, Object(k + 1, File[k + 1])) ELSE items
        /\ UNCHANGED <<c, i>>
DxfNext == Read

\* Bounded model: every file of Depth entities among a few ones
Poly(pts, bulges, closed, below) == [below |-> below, t |-> "LWPOLYLINE", pts |-> pts, bulges |-> bulges, closed |-> closed]
Corners == <<V(0, 0), V(2, 0), V(1, 3)>>
Bulges == {I(0), I(1), I(-1), R(1, 2), R(-1, 2), I(2), I(-3)}
Directions == {V(1, 0), V(0, 1), V(-1, 0), V(0, -1), <<R(3, 5), R(4, 5)>>, <<R(-4, 5), R(-3, 5)>>}
Entities == { [t |-> "LINE", pts |-> <<V(0, 0), V(1, 2)>>], [t |-> "TEXT"], [t |-> "POINT"] }
            \cup { Poly(Corners, <<a, I(0), b>>, z, w) : a, b \in Bulges, z, w \in BOOLEAN }
            \cup { [t |-> "CIRCLE", below |-> w, center |-> V(1, 2), a |-> I(2), d0 |-> <<>>, d1 |-> <<>>] : w \in BOOLEAN }
            \cup { [t |-> "ARC", below |-> w, center |-> V(1, 2), a |-> I(2), d0 |-> d[1], d1 |-> d[2]] : w \in BOOLEAN, d \in {d \in Directions \X Directions : d[1] # d[2]} }
            \cup { [t |-> "ELLIPSE", below |-> w, center |-> V(1, 2), a |-> I(2), ratio |-> R(1, 2), rot |-> r, d0 |-> d[1], d1 |-> d[2]] :
                     w \in BOOLEAN, r \in Directions, d \in {d \in Directions \X Directions : d[1] # d[2]} \cup {<<(<<>>), <<>>>>} }
            \cup { [t |-> "SPLINE", pts |-> <<V(0, 0), V(2, 0), V(2, 2), V(0, 2)>>, degree |-> d, closed |-> FALSE, knots |-> ks] :
                     d \in {3}, ks \in {<<>>, <<I(0), I(0), I(0), I(0), I(2), I(2), I(2), I(2)>>} }
            \cup { [t |-> "SPLINE", pts |-> <<V(0, 0), V(2, 0), V(2, 2), V(0, 2)>>, degree |-> d, closed |-> FALSE, knots |-> ks] :
                     d \in {2}, ks \in {<<>>, <<I(0), I(0), I(0), I(3), I(4), I(4), I(4)>>} }
ModelInit == i = 0 /\ c = [entities |-> <<>>] /\ k = 0 /\ items = <<>>
ModelNext == \E x \in Entities : /\ k < Depth /\ k' = k + 1 /\ c' = [c EXCEPT !.entities = Append(@, x)]
                                 /\ items' = IF x.t \in Known THEN Append(items, Object(k + 1, x)) ELSE items
                                 /\ UNCHANGED i

-----------------------------------------------------------------------------
ArcOk(a) == LET p == a.pts[1] m == a.pts[2] q == a.pts[3] v == VSub(q, p) IN
            \* the three points are on the circle, the arc is at the right of its chord when it is counterclockwise, by the bulge times the half of the chord
            /\ Sq(VSub(m, a.center)) = a.r2 /\ Sq(VSub(q, a.center)) = a.r2
            /\ (Cross(v, VSub(m, p))[1] < 0) = (a.b[1] > 0)
            /\ RMul(I(4), Sq(VSub(m, Lerp(p, q, R(1, 2))))) = RMul(RSq(a.b), Sq(v))
            \* it is greater than a half circle when the bulge is greater than one
            /\ (RLt(I(1), RSq(a.b))) = (Cross(v, VSub(a.center, p))[1] * a.b[1] < 0)
DxfLaws ==
    \* each known entity gives one object, in order
    /\ Len(items) = Cardinality({j \in 1..k : File[j].t \in Known})
    /\ \A a, b \in DOMAIN items : a < b => items[a].own < items[b].own
    /\ \A n \in DOMAIN items : LET m == items[n] IN
         /\ m.t = "polyline" =>
              /\ \A j \in DOMAIN m.parts : m.parts[j].t = "arc" => ArcOk(m.parts[j])
              \* joined, closed
              /\ \A j \in 1..(Len(m.parts) - 1) : m.parts[j].pts[Len(m.parts[j].pts)] = m.parts[j + 1].pts[1]
              /\ m.closed => m.parts[Len(m.parts)].pts[Len(m.parts[Len(m.parts)].pts)] = m.parts[1].pts[1]
         /\ m.t \in {"circle", "ellipse"} => IsUnit(m.e.rot) /\ (m.d0 # <<>> => IsUnit(m.d0) /\ IsUnit(m.d1))
         /\ m.t = "spline" =>
              /\ m.parts[1][1] = m.pts[1] /\ m.parts[Len(m.parts)][Len(m.parts[1])] = m.pts[Len(m.pts)]
              /\ \A j \in 1..(Len(m.parts) - 1) : m.parts[j][Len(m.parts[j])] = m.parts[j + 1][1]
    \* what is seen from below is the mirror of what is seen from above
    /\ \A n \in DOMAIN items : LET x == File[items[n].own] IN x.t \in {"ARC", "LWPOLYLINE"} /\ x.below =>
         LET m == items[n] o == Object(m.own, [x EXCEPT !.below = FALSE]) IN
         /\ x.t = "ARC" => At(m.e, m.d0) = Mirror(At(o.e, o.d1)) /\ At(m.e, m.d1) = Mirror(At(o.e, o.d0))
         /\ \A j \in DOMAIN m.parts : m.parts[j].pts = [l \in DOMAIN o.parts[j].pts |-> Mirror(o.parts[j].pts[l])]
\* what is read does not change
Kept == [][ Len(items') >= Len(items) /\ SubSeq(items', 1, Len(items)) = items ]_dvars

Seen(m) == [own |-> m.own, t |-> m.t, pts |-> m.pts, e |-> m.e, parts |-> m.parts, closed |-> m.closed,
            uniform |-> m.t = "spline" /\ File[m.own].knots \in {<<>>, S!Uniform(Len(m.pts), File[m.own].degree)},
            ends |-> IF m.d0 # <<>> THEN <<At(m.e, m.d0), At(m.e, m.d1)>> ELSE <<>>]
EmitEnd == k = Len(File) /\ (i > 0 \/ k = Depth) => PrintT(ToJson([i |-> i, h |-> IF i = 0 THEN File ELSE <<>>, items |-> [j \in DOMAIN items |-> Seen(items[j])]]))
=============================================================================
