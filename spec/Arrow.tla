-------------------------------- MODULE Arrow --------------------------------
(* Arrow heads.  A pen draws the contour of a head from its tip: the left side, the back, the right side, back to the tip.
   A head has a tip p, a direction of unit vector u, a length, a width (of each side), an offset of the back along the axis, one or two sides,
   and, when its sides are curves, a depth: the control point of a side is beyond its middle, by depth times the side.       *)
EXTENDS Vec, SequencesExt, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VF_IN)
VARIABLES i, at, drawn
vars == <<i, at, drawn>>
c == Cases[i]

u == c.u
n == Turn(u, 1)
Tip == c.p
Back == VSub(Tip, VScale(c.length, u))
LeftPoint == VAdd(Back, VScale(c.width, n))
RightPoint == VSub(Back, VScale(c.width, n))
Notch == VSub(Back, VScale(c.offset, u))
Place(x) == CASE x = "tip" -> Tip [] x = "left" -> LeftPoint [] x = "right" -> RightPoint [] x = "back" -> Notch
IsRefused == ~c.left /\ ~c.right
\* the back is a point of the contour, except for the flat back of a head of two sides
HasBack == c.offset # I(0) \/ ~(c.left /\ c.right)
\* from corner to corner, the contour ends at the tip
After == CASE at = "tip" -> IF c.left THEN "left" ELSE "right"
           [] at = "left" -> IF HasBack THEN "back" ELSE "right"
           [] at = "back" -> IF c.left /\ c.right THEN "right" ELSE "tip"
           \* a head which has only a right side is drawn from the right
           [] at = "right" -> IF c.left THEN "tip" ELSE "back"
\* control point of a curved side: on the left of the direction for the left side, on the right for the right one
Beyond(q, side) == LET d == VSub(q, Tip) m == Mid(q, Tip) IN
    VAdd(m, VScale(IF side = "left" THEN RNeg(c.depth) ELSE c.depth, Turn(d, 1)))
IsSide(x, y) == {x, y} \in {{"tip", "left"}, {"tip", "right"}} 
Piece(x, y) == [from |-> Place(x), to |-> Place(y), names |-> <<x, y>>,
                control |-> IF IsSide(x, y) THEN <<Beyond(IF x = "tip" THEN Place(y) ELSE Place(x), IF "left" \in {x, y} THEN "left" ELSE "right")>> ELSE <<>>]

Init == i \in DOMAIN Cases /\ at = "tip" /\ drawn = <<>>
Closed == drawn # <<>> /\ at = "tip"
Next == /\ ~IsRefused /\ ~Closed /\ at' = After /\ drawn' = Append(drawn, Piece(at, at')) /\ UNCHANGED i

-----------------------------------------------------------------------------
\* mirror by the axis of the head
Mirror(q) == LET d == VSub(q, Tip) IN VAdd(Tip, VSub(VScale(RMul(I(2), Dot(d, u)), u), d))
Joined == \A j \in 1..(Len(drawn) - 1) : drawn[j].to = drawn[j + 1].from
Laws == /\ Sq(u) = I(1)
        /\ Joined /\ Len(drawn) <= 4
        /\ Mirror(LeftPoint) = RightPoint /\ Mirror(Notch) = Notch
        \* the sides are of the same length, the middle of the back is on the axis
        /\ Sq(VSub(LeftPoint, Tip)) = Sq(VSub(RightPoint, Tip)) /\ Mid(LeftPoint, RightPoint) = Back
        /\ Mirror(Beyond(LeftPoint, "left")) = Beyond(RightPoint, "right")
        \* curves go out of the head, for a positive depth
        /\ c.depth[1] > 0 => /\ Orient(Tip, LeftPoint, Beyond(LeftPoint, "left"))[1] * Orient(Tip, LeftPoint, RightPoint)[1] <= 0
                             /\ Orient(Tip, RightPoint, Beyond(RightPoint, "right"))[1] * Orient(Tip, RightPoint, LeftPoint)[1] <= 0
        /\ Closed => /\ drawn[Len(drawn)].to = drawn[1].from
                     \* each corner once
                     /\ Cardinality({ drawn[j].names[1] : j \in DOMAIN drawn }) = Len(drawn)
                     /\ c.left => \E j \in DOMAIN drawn : drawn[j].names[1] = "left"
                     /\ c.right => \E j \in DOMAIN drawn : drawn[j].names[1] = "right"
Emit == (IsRefused \/ Closed) => PrintT(ToJson([i |-> i, refused |-> IsRefused, drawn |-> drawn, left |-> LeftPoint, right |-> RightPoint, back |-> Back,
                                             notch |-> Notch, lcontrol |-> Beyond(LeftPoint, "left"), rcontrol |-> Beyond(RightPoint, "right"),
                                             area2 |-> RAbs(RSum([j \in DOMAIN drawn |-> Cross(drawn[j].from, drawn[j].to)]))]))
=============================================================================
