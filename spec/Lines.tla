-------------------------------- MODULE Lines --------------------------------
(* Lines [p, v] and segments [a, b] of the plane: incidence, intersection, projection, distance. *)
EXTENDS Vec, TLC, Json, IOUtils

CONSTANTS N          \* grid [0, N]
VARIABLES a, b, c, d, kind     \* kind: "segments" [a, b] [c, d], "line" (a, direction b) and (c, direction d)
vars == <<a, b, c, d, kind>>

Grid == { V(x, y) : x, y \in 0 .. N }
Directions == { V(x, y) : x, y \in -N .. N } \ {Zero2}
Cases == ndJsonDeserialize(IOEnv.VF_IN)

SegInit == /\ kind = "segments" /\ a \in Grid /\ b \in Grid /\ c \in Grid /\ d \in Grid /\ a # b /\ c # d
\* by translation, the first line starts at a fixed point
LineInit == /\ kind = "line" /\ a = V(1, 1) /\ b \in Directions /\ c \in Grid /\ d \in Directions
CaseInit == \E k \in DOMAIN Cases : /\ kind = Cases[k].kind
                                     /\ a = Cases[k].p[1] /\ b = Cases[k].p[2] /\ c = Cases[k].p[3] /\ d = Cases[k].p[4]
Next == FALSE /\ UNCHANGED vars

-----------------------------------------------------------------------------
Det2(v, w) == Cross(v, w)
\* parameters (s, t) of the intersection p + s v = q + t w of two lines which are not parallel
Params(p, v, q, w) == <<RDiv(Cross(VSub(q, p), w), Cross(v, w)), RDiv(Cross(VSub(q, p), v), Cross(v, w))>>
At(p, v, s) == VAdd(p, VScale(s, v))
\* parameter of the orthogonal projection of q on the line (p, v)
Foot(p, v, q) == RDiv(Dot(VSub(q, p), v), Sq(v))
Clamp(s) == IF RLt(s, I(0)) THEN I(0) ELSE IF RLt(I(1), s) THEN I(1) ELSE s
\* square of the distance of q to the segment [p, r]
Dist2(p, r, q) == IF p = r THEN Sq(VSub(q, p))
                  ELSE Sq(VSub(q, At(p, VSub(r, p), Clamp(Foot(p, VSub(r, p), q)))))

-----------------------------------------------------------------------------
SegmentObs ==
    LET v == VSub(b, a)
        w == VSub(d, c)
        parallel == Cross(v, w) = I(0)
        st == IF parallel THEN <<I(0), I(0)>> ELSE Params(a, v, c, w)
    IN [ p |-> <<a, b, c, d>>, kind |-> kind,
         meet |-> SegmentsMeet(a, b, c, d),
         parallel |-> parallel,
         point |-> IF parallel THEN Zero2 ELSE At(a, v, st[1]),
         inside |-> ~ parallel /\ Clamp(st[1]) = st[1] /\ Clamp(st[2]) = st[2],
         share |-> { x \in {a, b} : x \in {c, d} },
         cross |-> Cross(v, w),
         length2 |-> Sq(v),
         center |-> Mid(a, b),
         side |-> Orient(a, b, c),
         contain |-> OnSegment(a, b, c),
         dist2 |-> Dist2(a, b, c),
         t |-> Lerp(a, b, <<1, 3>>) ]

LineObs ==
    LET parallel == Cross(b, d) = I(0)
        st == IF parallel THEN <<I(0), I(0)>> ELSE Params(a, b, c, d)
        foot == Foot(a, b, c)
    IN [ p |-> <<a, b, c, d>>, kind |-> kind,
         parallel |-> parallel, orthogonal |-> Dot(b, d) = I(0),
         st |-> st,
         point |-> IF parallel THEN Zero2 ELSE At(a, b, st[1]),
         foot |-> At(a, b, foot),
         abscissa |-> RDiv(SSq(Dot(VSub(c, a), b)), Sq(b)),
         distance |-> RDiv(SSq(Cross(b, VSub(c, a))), Sq(b)),
         v2 |-> Sq(b),
         y |-> IF b[1] = I(0) THEN I(0) ELSE RAdd(a[2], RMul(RDiv(b[2], b[1]), RSub(c[1], a[1]))),
         x |-> IF b[2] = I(0) THEN I(0) ELSE RAdd(a[1], RMul(RDiv(b[1], b[2]), RSub(c[2], a[2]))),
         at |-> At(a, b, <<3, 2>>) ]

\* Theorems
SegmentLaws == kind = "segments" =>
    LET o == SegmentObs
    IN /\ o.meet = SegmentsMeet(c, d, a, b)
       /\ o.meet = SegmentsMeet(b, a, c, d)
       /\ ~ o.parallel => (o.meet = o.inside)
       /\ o.contain <=> o.dist2 = I(0)
       /\ (o.share # {}) => o.meet
LineLaws == kind = "line" =>
    LET o == LineObs
    IN /\ ~ o.parallel => o.point = At(c, d, o.st[2])
       /\ Dot(VSub(c, o.foot), b) = I(0)
       /\ Cross(VSub(o.foot, a), b) = I(0)
Emit == PrintT(ToJson(IF kind = "line" THEN LineObs ELSE SegmentObs))
=============================================================================
