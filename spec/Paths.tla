-------------------------------- MODULE Paths --------------------------------
(* A path is drawn command after command, closed, transformed: lines (with rounded corners), Bezier curves, arcs.

   State: the start point, the parts (absolute points), the radius of the corner at the closure.
   One case is a sequence of commands, k is the number of executed commands.                      *)
EXTENDS Conics
VARIABLES k, path
pvars == <<c, i, k, path>>

Empty(p) == [p0 |-> p, parts |-> <<>>, closed |-> FALSE, start |-> I(0), done |-> TRUE]
PathInit == /\ i \in DOMAIN Cases /\ c = Cases[i]
            /\ k = 0 /\ path = Empty(c.p0)

-----------------------------------------------------------------------------
N(x) == Len(x.parts)
Stop(x, j) == IF j = 0 THEN x.p0 ELSE x.parts[j].p
Here(x) == Stop(x, N(x))
Start(x, j) == Stop(x, j - 1)
IsLine(x, j) == j \in DOMAIN x.parts /\ x.parts[j].t = "line"
Absolute(x, v, abs) == IF abs THEN v ELSE VAdd(Here(x), v)
Refused(x) == [x EXCEPT !.done = FALSE]
Add(x, part) == IF x.closed THEN x ELSE [x EXCEPT !.parts = Append(@, part), !.done = TRUE]
\* a corner is rounded between two lines
AddLine(x, p, r) ==
    IF x.closed THEN x
    ELSE IF r[1] > 0 /\ ~IsLine(x, N(x)) THEN Refused(x)
    ELSE Add(x, [t |-> "line", p |-> p, r |-> r])
Compass(name) == CASE name = "north" -> V(0, 1) [] name = "south" -> V(0, -1) [] name = "east" -> V(1, 0)
                   [] name = "west" -> V(-1, 0) [] name = "north_east" -> V(1, 1) [] name = "north_west" -> V(-1, 1)
                   [] name = "south_east" -> V(1, -1) [] name = "south_west" -> V(-1, -1)
                   [] name = "horizontal" -> V(1, 0) [] name = "vertical" -> V(0, 1)
RECURSIVE Run(_, _)

-----------------------------------------------------------------------------
\* Transformations
Similarity(op) == op[1] # "affine"
MovedPoint(op, p) == IF Similarity(op) THEN Image(op, p)
                     ELSE <<RAdd(RMul(op[2][1], p[1]), RMul(op[2][2], p[2])), RAdd(RMul(op[2][3], p[1]), RMul(op[2][4], p[2]))>>
Linear(op, v) == IF op[1] = "translate" THEN v ELSE Image(op, v)
Factor(op) == IF op[1] = "scale" THEN RAbs(op[2]) ELSE I(1)
Reverses(op) == op[1] \in {"x_mirror", "y_mirror"}
MovedArc(op, a) ==
    LET f == Factor(op) rot == Linear(op, a.e.rot) flip(d) == IF Reverses(op) THEN Conj(d) ELSE d
    IN [a EXCEPT !.p = Image(op, a.p),
                 !.e = [center |-> Image(op, a.e.center), a |-> RMul(f, a.e.a), b |-> RMul(f, a.e.b), rot |-> VScale(RInv(f), rot)],
                 !.d0 = IF Reverses(op) THEN flip(a.d1) ELSE a.d0, !.d1 = IF Reverses(op) THEN flip(a.d0) ELSE a.d1, !.sweep = IF Reverses(op) THEN ~a.sweep ELSE a.sweep]
MovedPart(op, a) ==
    CASE a.t = "line" -> [a EXCEPT !.p = MovedPoint(op, @), !.r = RMul(Factor(op), @)]
      [] a.t = "quadratic" -> [a EXCEPT !.p = MovedPoint(op, @), !.p1 = MovedPoint(op, @)]
      [] a.t = "cubic" -> [a EXCEPT !.p = MovedPoint(op, @), !.p1 = MovedPoint(op, @), !.p2 = MovedPoint(op, @)]
      [] a.t = "arc" -> MovedArc(op, a)
Transformed(x, op) == [x EXCEPT !.p0 = MovedPoint(op, @), !.parts = [j \in DOMAIN @ |-> MovedPart(op, @[j])],
                                !.start = RMul(Factor(op), @), !.done = TRUE]

-----------------------------------------------------------------------------
\* Commands
Command(x, op) ==
    CASE op[1] = "line" -> AddLine(x, Absolute(x, op[2], op[3]), op[4])
      [] op[1] = "compass" -> AddLine(x, VAdd(Here(x), VScale(op[3], Compass(op[2]))), op[4])
      [] op[1] = "absolute_x" -> AddLine(x, <<op[2], Here(x)[2]>>, op[3])
      [] op[1] = "absolute_y" -> AddLine(x, <<Here(x)[1], op[2]>>, op[3])
      [] op[1] = "quadratic" -> Add(x, [t |-> "quadratic", p1 |-> Absolute(x, op[2], op[4]), p |-> Absolute(x, op[3], op[4])])
      [] op[1] = "cubic" -> Add(x, [t |-> "cubic", p1 |-> Absolute(x, op[2], op[5]), p2 |-> Absolute(x, op[3], op[5]),
                                    p |-> Absolute(x, op[4], op[5])])
      [] op[1] = "arc" -> \* a, b, rot, d0, d1, sweep: from d0 counterclockwise to d1, or the opposite
             LET e0 == [center |-> Zero2, a |-> op[2], b |-> op[3], rot |-> op[4]]
                 from == IF op[7] THEN op[5] ELSE op[6]
                 to == IF op[7] THEN op[6] ELSE op[5]
                 e == [e0 EXCEPT !.center = VSub(Here(x), At(e0, from))]
             IN Add(x, [t |-> "arc", e |-> e, d0 |-> op[5], d1 |-> op[6], sweep |-> op[7], p |-> At(e, to)])
      [] op[1] = "close" ->
             LET y == AddLine(x, x.p0, op[2])
             IN IF x.closed \/ ~y.done THEN y ELSE [y EXCEPT !.closed = TRUE, !.start = op[3]]
      [] op[1] = "move" -> [x EXCEPT !.p0 = op[2], !.done = TRUE]
      [] op[1] = "transform" -> Transformed(x, op[2])
      [] op[1] = "clone" -> [x EXCEPT !.done = TRUE]
      [] op[1] = "rounded" -> \* width, height, radius
             LET w == VScale(op[2], V(1, 0)) h == VScale(op[3], V(0, 1))
             IN Run(x, << <<"line", w, FALSE, I(0)>>, <<"line", h, FALSE, op[4]>>, <<"line", VNeg(w), FALSE, op[4]>>,
                          <<"close", op[4], op[4]>> >>)
Run(x, s) == IF s = <<>> THEN x ELSE Run(Command(x, Head(s)), Tail(s))
PathNext == /\ k < Len(c.ops) /\ k' = k + 1
            /\ path' = Command(path, c.ops[k + 1])
            /\ UNCHANGED <<c, i>>

-----------------------------------------------------------------------------
\* Rounded corners
Radius(x, j) == IF ~IsLine(x, j) THEN I(0) ELSE IF j = 1 THEN x.start ELSE x.parts[j].r
Before(x, j) == IF j = 1 /\ x.closed THEN N(x) ELSE j - 1
After(x, j) == IF j = N(x) /\ x.closed THEN 1 ELSE j + 1
Side(x, j) == VSub(Stop(x, j), Start(x, j))
Known(v) == RIsSquare(Sq(v)) /\ ~IsZero(v)
UnitOf(v) == VScale(RInv(RSqrt(Sq(v))), v)
\* is the corner rounded and is it defined
Rounded(x, j) == Radius(x, j)[1] > 0
Defined(x, j) == ~Rounded(x, j) \/ ( /\ Known(Side(x, j)) /\ Known(Side(x, Before(x, j)))
                                     /\ Cross(Side(x, j), Side(x, Before(x, j)))[1] # 0 )
AllDefined(x) == \A j \in DOMAIN x.parts : Defined(x, j)
Corner(x, j) ==
    LET u == UnitOf(Side(x, Before(x, j)))
        v == UnitOf(Side(x, j))
        r == Radius(x, j)
        left == Cross(u, v)[1] > 0
        t == RMul(r, RDiv(RAbs(Cross(u, v)), RAdd(I(1), Dot(u, v))))           \* r tan(turn / 2)
        from == VSub(Start(x, j), VScale(t, u))
        center == VAdd(from, VScale(IF left THEN r ELSE RNeg(r), Turn(u, 1)))
    IN [r |-> r, from |-> from, to |-> VAdd(Start(x, j), VScale(t, v)), center |-> center, left |-> left]
CornerArc(x, j) ==
    LET a == Corner(x, j)
        e == [center |-> a.center, a |-> a.r, b |-> a.r, rot |-> Unit]
        d(p) == VScale(RInv(a.r), VSub(p, a.center))
    IN IF a.left THEN ArcPoints(e, d(a.from), d(a.to)) ELSE ArcPoints(e, d(a.to), d(a.from))
\* ends of the straight part of a line
Straight(x, j) == << IF Rounded(x, j) THEN Corner(x, j).to ELSE Start(x, j),
                     IF Rounded(x, After(x, j)) THEN Corner(x, After(x, j)).from ELSE Stop(x, j) >>

PartObs(x, j) ==
    LET a == x.parts[j] IN
    CASE a.t = "line" -> [t |-> "line", start |-> Start(x, j), stop |-> a.p, straight |-> Straight(x, j), rounded |-> Rounded(x, j),
                          corner |-> IF Rounded(x, j) THEN <<Corner(x, j)>> ELSE <<>>]
      [] a.t = "quadratic" -> [t |-> "quadratic", start |-> Start(x, j), stop |-> a.p, points |-> <<Start(x, j), a.p1, a.p>>]
      [] a.t = "cubic" -> [t |-> "cubic", start |-> Start(x, j), stop |-> a.p, points |-> <<Start(x, j), a.p1, a.p2, a.p>>]
      [] a.t = "arc" -> [t |-> "arc", start |-> Start(x, j), stop |-> a.p, e |-> a.e, sweep |-> a.sweep, d0 |-> a.d0, d1 |-> a.d1]
\* points whose box is the box of the path
RECURSIVE BoxPoints(_, _)
BoxPoints(x, j) ==
    IF j = 0 THEN <<>>
    ELSE LET a == x.parts[j]
             s == CASE a.t = "line" -> Straight(x, j) \o IF Rounded(x, j) THEN CornerArc(x, j) ELSE <<>>
                    [] a.t = "arc" -> ArcPoints(a.e, a.d0, a.d1)
         IN s \o BoxPoints(x, j - 1)
Boxed(x) == N(x) > 0 /\ \A j \in DOMAIN x.parts : x.parts[j].t = "line" \/ (x.parts[j].t = "arc" /\ OnAxis(x.parts[j].e.rot))
PathObs(x) == [ i |-> i, k |-> k, p0 |-> x.p0, closed |-> x.closed, done |-> x.done, defined |-> AllDefined(x), n |-> N(x),
                parts |-> IF AllDefined(x) THEN [j \in DOMAIN x.parts |-> PartObs(x, j)] ELSE <<>>,
                box |-> IF AllDefined(x) /\ Boxed(x) THEN Box(BoxPoints(x, N(x))) ELSE <<>> ]
PathEmit == PrintT(ToJson(PathObs(path)))

-----------------------------------------------------------------------------
\* Theorems
PathLaws ==
    /\ path.closed => N(path) > 0 /\ Here(path) = path.p0
    /\ \A j \in DOMAIN path.parts :
           LET a == path.parts[j] IN
           \* the arcs join the points
           /\ a.t = "arc" => /\ At(a.e, IF a.sweep THEN a.d0 ELSE a.d1) = Start(path, j)
                             /\ At(a.e, IF a.sweep THEN a.d1 ELSE a.d0) = a.p
           \* a corner is tangent to both lines, at the same distance of the vertex
           /\ Rounded(path, j) /\ Defined(path, j) =>
                 LET n == Corner(path, j)
                     u == Side(path, Before(path, j))
                     v == Side(path, j)
                 IN /\ Sq(VSub(n.from, n.center)) = RSq(n.r) /\ Sq(VSub(n.to, n.center)) = RSq(n.r)
                    /\ Dot(VSub(n.from, n.center), u) = I(0) /\ Dot(VSub(n.to, n.center), v) = I(0)
                    /\ Sq(VSub(n.from, Start(path, j))) = Sq(VSub(n.to, Start(path, j)))
\* a command adds at most one part, the parts are never changed but by a transformation or a move of the start
Growth == [][ \/ c.ops[k'][1] \in {"transform", "rounded", "move"}
              \/ /\ N(path') <= N(path) + 1 /\ SubSeq(path'.parts, 1, N(path)) = path.parts
                 /\ (path.closed \/ ~path'.done => path'.parts = path.parts) ]_pvars
=============================================================================
