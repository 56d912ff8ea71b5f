------------------------------ MODULE Painter ------------------------------
(* Drawing a scene: to a file (svg, pdf, dxf, tex), to a figure (mpl), to a picture by Qt (qt) or in a window (quick).

   A scene is a collection of items at positions or at named coordinates, with a transformation T and a bounding box.
   Drawing is a loop over the visible items, in stacking order: the items to paint (todo) are moved to the page, one after the other.
   The page is a sequence of primitives: commands (M, L and C) or a place, at the coordinates of the back-end, with a stroke and a fill.
   A back-end which cannot paint an item refuses the drawing.

   State: coords, name -> position; items, in order of insertion; todo; page; job, the drawing under way, or <<>>; status.
   Coordinates are rational numbers <<numerator, denominator>>, a point is a pair.                              *)
EXTENDS Vec, SequencesExt, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VF_IN)
CONSTANTS Depth
VARIABLES i, c, k, coords, items, todo, page, job, status
scene == <<coords, items>>
vars == <<i, c, k, coords, items, todo, page, job, status>>

Backends == {"svg", "pdf", "dxf", "tex", "mpl", "qt", "quick"}
Files == {"svg", "pdf", "dxf", "tex", "mpl"}
Screens == {"qt", "quick"}

-----------------------------------------------------------------------------
\* Where an item is. c.t: the transformation <<a, b, c, d, x, y>>, of rationals; c.box: the bounding box <<x0, y0, x1, y1>>, of integers
Cast(v) == <<RAdd(RAdd(RMul(c.t[1], v[1]), RMul(c.t[2], v[2])), c.t[5]), RAdd(RAdd(RMul(c.t[3], v[1]), RMul(c.t[4], v[2])), c.t[6])>>
\* A position is a vector [n: "", v: vector] or the name of a coordinate
Place(p) == Cast(IF p.n = "" THEN p.v ELSE coords[p.n])
Known(p) == p.n = "" \/ p.n \in DOMAIN coords

\* The window of a quick view shows the whole box, but a margin of 1 % on each side
FitScale(j) == LET S == { RDiv(I(j.size[a]), RMul(I(c.box[a + 2] - c.box[a]), R(102, 100))) : a \in {1, 2} } IN CHOOSE x \in S : \A y \in S : RLe(x, y)
Scale(j) == IF j.b = "qt" THEN j.scale ELSE IF j.b = "quick" THEN FitScale(j) ELSE IF j.b \in {"svg", "dxf"} THEN I(10) ELSE IF j.b = "pdf" THEN I(7) ELSE I(1)
Edge(j, a, s) == RAdd(R(c.box[a] + c.box[a + 2], 2), RMul(I(s), RDiv(R(j.size[a], 2), FitScale(j))))
Area(j) == <<Edge(j, 1, -1), Edge(j, 2, -1), Edge(j, 1, 1), Edge(j, 2, 1)>>
\* The point of the scene at the origin of the page, and the direction of the y axis of the page
Origin(j) == CASE j.b = "svg" -> <<I(c.box[1]), I(c.box[4])>>
               [] j.b = "pdf" -> <<RSub(I(c.box[1]), R(10, 7)), RSub(I(c.box[2]), R(10, 7))>>       \* a margin of 10 mm
               [] j.b = "quick" -> <<Edge(j, 1, -1), Edge(j, 2, 1)>>
               [] OTHER -> Zero2
Down(j) == j.b \in {"svg", "qt", "quick"}
ToPage(j, p) == LET q == VScale(Scale(j), VSub(p, Origin(j))) IN IF Down(j) THEN Conj(q) ELSE q

-----------------------------------------------------------------------------
\* Style of a primitive
None == [c |-> <<>>, w |-> I(0), dash |-> "", a |-> I(1), cap |-> "", join |-> ""]
Invisible(s) == s.c = <<>> \/ s.dash = "NoPen"
Line(s) == [c |-> s.c, w |-> s.w, dash |-> s.dash, a |-> s.a, cap |-> s.cap, join |-> s.join]
\* a selected item is red and four times thicker on screen
Stroke(j, x) == LET s == x.style h == [s EXCEPT !.c = <<255, 0, 0>>, !.w = RMul(I(4), s.w), !.a = I(1)] u == IF x.sel /\ j.b \in Screens THEN h ELSE s
                IN IF Invisible(u) THEN None ELSE Line(u)
Fill(j, x) == IF j.b \in Screens /\ x.style.f # <<>> THEN [c |-> x.style.f, a |-> x.style.fa] ELSE [c |-> <<>>, a |-> I(1)]
NoFill == [c |-> <<>>, a |-> I(1)]
Plain(rgb, w) == [c |-> rgb, w |-> w, dash |-> "SolidLine", a |-> I(1), cap |-> "SquareCap", join |-> "BevelJoin"]
Prim(j, x, kind, cmds, s, f) == [own |-> x.k, kind |-> kind, cmds |-> cmds, stroke |-> s, fill |-> f, r |-> <<>>, txt |-> ""]

\* Commands
M(p) == [o |-> "M", p |-> <<p>>]
L(p) == [o |-> "L", p |-> <<p>>]
C(p, q, r) == [o |-> "C", p |-> <<p, q, r>>]
\* a quadratic curve is a cubic one
Elevated(p, q, r) == C(Lerp(p, q, <<2, 3>>), Lerp(r, q, <<2, 3>>), r)
Last1(cmds) == LET p == cmds[Len(cmds)].p IN p[Len(p)]
Closed(cmds) == Append(cmds, L(cmds[1].p[1]))
Poly(P) == <<M(P[1])>> \o [n \in 1..(Len(P) - 1) |-> L(P[n + 1])]
RECURSIVE Trace(_, _)
Trace(cmds, segs) ==
    IF segs = <<>> THEN cmds
    ELSE LET s == Head(segs) p == [n \in DOMAIN s.pos |-> Place(s.pos[n])]
         IN Trace(Append(cmds, CASE s.k = "L" -> L(p[1]) [] s.k = "Q" -> Elevated(Last1(cmds), p[1], p[2]) [] s.k = "C" -> C(p[1], p[2], p[3])), Tail(segs))
\* An arc is known by the points where it crosses the axes: its angles are quarters of turn
Crossing(x, n) == LET a == <<<<x.rx, I(0)>>, <<I(0), x.ry>>, <<RNeg(x.rx), I(0)>>, <<I(0), RNeg(x.ry)>>>>[(n % 4) + 1]
                  IN VAdd(Place(x.pos[1]), RotateCS(a, x.cs[1], x.cs[2]))
Turns(x) == IF x.a1 >= x.a0 THEN x.a1 - x.a0 ELSE x.a1 - x.a0 + 4
Whole(x) == Abs(x.a1 - x.a0) >= 4
Crossings(x) == [n \in 1..(Turns(x) + 1) |-> Crossing(x, x.a0 + n - 1)]

\* The primitives of an item, at their places in the scene
Points(x) == [n \in DOMAIN x.pos |-> Place(x.pos[n])]
Handles(j, x, P) == IF j.b \in Screens /\ x.style.ctl # <<>>
                    THEN <<Prim(j, x, "path", Poly(P), Plain(x.style.ctl, I(1)), NoFill)>>
                         \o [n \in DOMAIN P |-> [Prim(j, x, "round", <<M(P[n])>>, Plain(x.style.ctl, I(1)), [c |-> x.style.ctl, a |-> I(1)]) EXCEPT !.r = <<I(3), I(3)>>]]
                    ELSE <<>>
Shapes(j, x) ==
    LET P == Points(x) s == Stroke(j, x) f == Fill(j, x)
    IN CASE x.kind = "text" -> <<[Prim(j, x, "text", <<M(P[1])>>, None, NoFill) EXCEPT !.txt = x.txt]>>
         \* a circle is a dot of a drawing
         [] x.kind = "circle" /\ j.b = "dxf" -> <<>>
         [] x.kind = "circle" /\ j.b \in Files -> <<Prim(j, x, "dot", <<M(P[1])>>, None, NoFill)>>
         [] x.kind \in {"circle", "ellipse"} ->
              IF Whole(x) THEN <<[Prim(j, x, "round", <<M(P[1])>>, s, f) EXCEPT !.r = <<RMul(Scale(j), x.rx), RMul(Scale(j), x.ry)>>]>>
              ELSE <<Prim(j, x, "arc", Poly(Crossings(x)), s, NoFill)>>
         [] x.kind = "segment" -> <<Prim(j, x, "path", Poly(P), s, NoFill)>>
         [] x.kind = "polyline" -> <<Prim(j, x, "path", Poly(P), s, NoFill)>>
         [] x.kind = "polygon" -> <<Prim(j, x, "path", Closed(Poly(P)), s, f)>>
         [] x.kind = "cubic" -> <<Prim(j, x, "path", <<M(P[1]), C(P[2], P[3], P[4])>>, s, NoFill)>> \o Handles(j, x, P)
         [] x.kind = "quadratic" -> <<Prim(j, x, "path", <<M(P[1]), Elevated(P[1], P[2], P[3])>>, s, NoFill)>>
         [] x.kind = "path" -> LET cmds == Trace(<<M(P[1])>>, x.segs) IN <<Prim(j, x, "path", IF x.close THEN Closed(cmds) ELSE cmds, s, f)>>
         [] x.kind = "image" -> <<Prim(j, x, "image", Poly(P), None, NoFill)>>
\* what cannot be seen is not on the page: a CAD drawing shows the lines without pen as phantoms
Phantom == [Plain(<<>>, I(0)) EXCEPT !.dash = "phantom"]
Shown(j, p) == IF j.b = "dxf" /\ p.kind = "path" /\ p.stroke = None THEN [p EXCEPT !.stroke = Phantom] ELSE p
Visible(p) == p.kind \notin {"path", "arc", "round"} \/ p.stroke # None \/ p.fill # NoFill
OnPage(j, p) == [Shown(j, p) EXCEPT !.cmds = [n \in DOMAIN p.cmds |-> [o |-> p.cmds[n].o, p |-> [m \in DOMAIN p.cmds[n].p |-> ToPage(j, p.cmds[n].p[m])]]]]
Primitives(j, x) == LET S == Shapes(j, x) P == [n \in DOMAIN S |-> OnPage(j, S[n])] IN SelectSeq(P, Visible)
Paintable(j, x) == x.kind \in (IF j.b \in Files THEN {"segment", "cubic", "circle", "text"}
                               ELSE {"segment", "cubic", "circle", "text", "ellipse", "polyline", "polygon", "quadratic", "path", "image"})
Ready(x) == (\A n \in DOMAIN x.pos : Known(x.pos[n])) /\ (\A n \in DOMAIN x.segs : \A m \in DOMAIN x.segs[n].pos : Known(x.segs[n].pos[m]))

-----------------------------------------------------------------------------
\* The grid of a window: thick lines at the multiples of a step, thin ones at those of a tenth of it
RECURSIVE Power(_, _)
Power(x, n) == IF RLt(x, I(10 * n)) THEN n ELSE Power(x, 10 * n)
Floor(x) == x[1] \div x[2]
Multiples(a, b, n) == { m * n : m \in Floor(RDiv(a, I(n)))..(Floor(RDiv(b, I(n))) + 1) }
Ticks(a, b, n) == { m \in Multiples(a, b, n) : RLe(a, I(m)) /\ RLe(I(m), b) }
Step(j) == LET A == Area(j) IN Power(RMin(RSub(A[3], A[1]), RSub(A[4], A[2])), 10)
GridLines(j, n) == LET A == Area(j) IN
    { <<ToPage(j, <<I(x), A[2]>>), ToPage(j, <<I(x), A[4]>>)>> : x \in Ticks(A[1], A[3], n) } \cup { <<ToPage(j, <<A[1], I(y)>>), ToPage(j, <<A[3], I(y)>>)>> : y \in Ticks(A[2], A[4], n) }

-----------------------------------------------------------------------------
\* The scene
Ids == { items[n].k : n \in DOMAIN items }
At(n) == CHOOSE m \in DOMAIN items : items[m].k = n
Idle == UNCHANGED <<todo, page, job>>
Below(a, b) == IF items[a].z = items[b].z THEN a < b ELSE items[a].z < items[b].z
Stacking == LET S == SelectSeq([n \in DOMAIN items |-> n], LAMBDA n : items[n].vis) IN SortSeq(S, Below)
Edit(op) ==
    /\ status = "edit" /\ Idle
    /\ CASE op.o = "coord" -> coords' = (op.n :> op.v) @@ coords /\ UNCHANGED items /\ UNCHANGED status
         [] op.o = "add" -> items' = Append(items, op.x) /\ UNCHANGED coords /\ UNCHANGED status
         [] op.o = "remove" -> items' = SelectSeq(items, LAMBDA x : x.k # op.k) /\ UNCHANGED coords /\ UNCHANGED status
         [] op.o = "z" -> items' = [items EXCEPT ![At(op.k)].z = op.z] /\ UNCHANGED coords /\ UNCHANGED status
         [] op.o = "vis" -> items' = [items EXCEPT ![At(op.k)].vis = op.v] /\ UNCHANGED coords /\ UNCHANGED status
         [] op.o = "sel" -> items' = [items EXCEPT ![At(op.k)].sel = op.v] /\ UNCHANGED coords /\ UNCHANGED status
Draw(op) == /\ op.o = "draw" /\ status = "edit"
            /\ \A n \in DOMAIN items : items[n].vis => Ready(items[n])
            /\ todo' = [n \in DOMAIN Stacking |-> items[Stacking[n]].k] /\ page' = <<>> /\ job' = op /\ status' = "paint" /\ UNCHANGED scene
Paint == /\ status = "paint" /\ todo # <<>>
         /\ LET x == items[At(Head(todo))]
            IN IF Paintable(job, x) THEN page' = page \o Primitives(job, x) /\ status' = status ELSE page' = <<>> /\ status' = "refused"
         /\ todo' = Tail(todo) /\ UNCHANGED <<coords, items, job>>
Written == status = "paint" /\ todo = <<>>
Finished == Written \/ status = "refused"
Leave == Finished /\ status' = "edit" /\ todo' = <<>> /\ page' = <<>> /\ job' = <<>> /\ UNCHANGED scene

Empty == coords = [n \in {} |-> <<>>] /\ items = <<>> /\ todo = <<>> /\ page = <<>> /\ job = <<>> /\ status = "edit"
CaseInit == i \in DOMAIN Cases /\ c = Cases[i] /\ k = 0 /\ Empty
CaseNext == /\ UNCHANGED <<i, c>>
            /\ (IF status = "edit" THEN k < Len(c.ops) /\ k' = k + 1 /\ (IF c.ops[k'].o = "draw" THEN Draw(c.ops[k']) ELSE Edit(c.ops[k']))
                ELSE k' = k /\ (IF Finished THEN Leave ELSE Paint))
Emit == Finished => PrintT(ToJson([i |-> i, k |-> k, res |-> status, page |-> page,
            grid |-> IF job.b = "quick" THEN [thick |-> GridLines(job, Step(job)), thin |-> GridLines(job, Step(job) \div 10)] ELSE <<>>,
            scale |-> Scale(job)]))

\* Bounded model: three items over two coordinates
Dark == [cap |-> "SquareCap", join |-> "BevelJoin", c |-> <<1, 2, 3>>, w |-> I(2), dash |-> "DashLine", a |-> I(1), f |-> <<>>, fa |-> I(1), ctl |-> <<>>]
At2(x, y) == [n |-> "", v |-> V(x, y)]
NewItem(n, kind, pos) == [k |-> n, kind |-> kind, pos |-> pos, style |-> [Dark EXCEPT !.dash = IF n = 3 THEN "NoPen" ELSE "DashLine", !.f = IF n = 2 THEN <<>> ELSE <<9, 9, 9>>], z |-> 0, vis |-> TRUE, sel |-> FALSE,
                          rx |-> I(1), ry |-> I(1), cs |-> <<I(1), I(0)>>, a0 |-> 0, a1 |-> 4, segs |-> <<>>, close |-> FALSE, txt |-> ""]
Alphabet == { [o |-> "coord", n |-> "A", v |-> V(1, 1)], [o |-> "coord", n |-> "A", v |-> V(3, 2)],
              [o |-> "add", x |-> NewItem(1, "segment", <<[n |-> "A", v |-> Zero2], At2(2, 1)>>)], [o |-> "add", x |-> NewItem(2, "circle", <<At2(2, 2)>>)],
              [o |-> "add", x |-> NewItem(3, "polygon", <<At2(0, 0), At2(4, 0), [n |-> "A", v |-> Zero2]>>)],
              [o |-> "remove", k |-> 1], [o |-> "vis", k |-> 1, v |-> FALSE], [o |-> "z", k |-> 1, z |-> 1], [o |-> "z", k |-> 2, z |-> -1], [o |-> "sel", k |-> 3, v |-> TRUE] }
Drawings == { [o |-> "draw", b |-> b, scale |-> I(10), size |-> <<204, 102>>] : b \in Backends }
Sensible(op) == CASE op.o = "add" -> op.x.k \notin Ids [] op.o \in {"remove", "vis", "z", "sel"} -> op.k \in Ids [] OTHER -> TRUE
ModelInit == i = 0 /\ c = [t |-> <<I(0), I(-1), I(1), I(0), I(1), I(0)>>, box |-> <<0, 0, 4, 4>>, h |-> <<>>] /\ k = 0 /\ Empty
ModelNext == /\ UNCHANGED <<i, k>>
             /\ (IF status = "edit"
                 THEN Len(c.h) < Depth /\ \E op \in Alphabet \cup Drawings : Sensible(op) /\ (IF op.o = "draw" THEN Draw(op) ELSE Edit(op)) /\ c' = [c EXCEPT !.h = Append(@, op)]
                 ELSE c' = c /\ (IF Finished THEN Leave ELSE Paint))
EmitModel == Finished => PrintT(ToJson([h |-> c.h, res |-> status, page |-> page, scale |-> Scale(job)]))

-----------------------------------------------------------------------------
\* Laws
ZOf(n) == items[At(n)].z
Owners == { page[n].own : n \in DOMAIN page }
\* the page is in stacking order; what is on it is what was to paint
Ordered == \A n, m \in DOMAIN page : n < m => ZOf(page[n].own) < ZOf(page[m].own) \/ (ZOf(page[n].own) = ZOf(page[m].own) /\ At(page[n].own) <= At(page[m].own))
Nothing(x) == Primitives(job, x) = <<>>
Whole1 == Written => \A n \in DOMAIN items : (items[n].k \in Owners) <=> (items[n].vis /\ ~Nothing(items[n]))
Refused == status = "refused" => \E n \in DOMAIN items : items[n].vis /\ ~Paintable(job, items[n])
\* a page is a similar figure: only its size and the direction of its y axis may change
Corners == << <<I(c.box[1]), I(c.box[2])>>, <<I(c.box[3]), I(c.box[2])>>, <<I(c.box[3]), I(c.box[4])>> >>
Similar == job # <<>> => LET Q == [n \in 1..3 |-> ToPage(job, Corners[n])]
                         IN /\ \A n, m \in 1..3 : Sq(VSub(Q[n], Q[m])) = RMul(RSq(Scale(job)), Sq(VSub(Corners[n], Corners[m])))
                            /\ (Left(Q[1], Q[2], Q[3]) <=> ~Down(job))
\* the box is on the page
Inside == job # <<>> => LET Q == [n \in 1..3 |-> ToPage(job, Corners[n])]
                        IN CASE job.b = "svg" -> Q[1][1] = I(0) /\ Q[3][2] = I(0) /\ RSign(Q[1][2]) >= 0 /\ RSign(Q[3][1]) >= 0
                             [] job.b = "pdf" -> Q[1] = V(10, 10)
                             [] job.b = "quick" -> \A n \in 1..3 : RLe(I(0), Q[n][1]) /\ RLe(Q[n][1], I(job.size[1])) /\ RLe(I(0), Q[n][2]) /\ RLe(Q[n][2], I(job.size[2]))
                             [] OTHER -> TRUE
\* a thin grid has the thick lines, and there are never too many lines
Grid == (Finished /\ job.b = "quick") => GridLines(job, Step(job)) \subseteq GridLines(job, Step(job) \div 10)
\* drawing does not change the scene
Untouched == [][job # <<>> => scene' = scene]_vars
Progress == [][status = "paint" /\ status' = "paint" => Len(todo') < Len(todo) /\ Len(page') >= Len(page)]_vars
=============================================================================
