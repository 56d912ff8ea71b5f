-------------------------------- MODULE Added --------------------------------
(* Geometric objects are added to a scene: each becomes one item, or several ones which are joined (a spline, a chain of Bezier curves, a path).

   State: items, the items of the scene; todo, the items left to add for the current operation; k, the number of operations done; res.
   An item is [own, t, pts, e, d0, d1, rev, sub]: own is the operation which added it; an arc goes counterclockwise from d0 to d1 on the ellipse e,
   d0 = d1 = <<>> for the whole ellipse, rev when the path goes the other way; sub, the parts of a path added as one item.
   A case has an offset (the transformation of the scene is a translation) and operations.                       *)
EXTENDS Paths
CONSTANTS Depth
S == INSTANCE Splines
VARIABLES items, todo, res
avars == <<c, i, k, path, items, todo, res>>

Item0(t, pts) == [own |-> 0, t |-> t, pts |-> pts, e |-> <<>>, d0 |-> <<>>, d1 |-> <<>>, rev |-> FALSE, sub |-> <<>>, closed |-> FALSE]
Arc0(t, e, d0, d1, rev) == [Item0(t, <<>>) EXCEPT !.e = e, !.d0 = d0, !.d1 = d1, !.rev = rev]
Curve(P) == Item0(IF Len(P) = 2 THEN "segment" ELSE IF Len(P) = 3 THEN "quadratic" ELSE "cubic", P)
Chain(P, d) == [j \in 1..((Len(P) - 1) \div d) |-> Curve(SubSeq(P, d * (j - 1) + 1, d * j + 1))]
Direction(a, p) == VScale(RInv(a.r), VSub(p, a.center))
CornerItem(x, j) == LET a == Corner(x, j) e == [center |-> a.center, a |-> a.r, b |-> a.r, rot |-> Unit]
                    IN IF a.left THEN Arc0("circle", e, Direction(a, a.from), Direction(a, a.to), FALSE)
                       ELSE Arc0("circle", e, Direction(a, a.to), Direction(a, a.from), TRUE)
PartItems(x, j) ==
    LET a == x.parts[j] IN
    CASE a.t = "line" -> (IF Rounded(x, j) THEN <<CornerItem(x, j)>> ELSE <<>>) \o <<Curve(Straight(x, j))>>
      [] a.t = "quadratic" -> <<Curve(<<Start(x, j), a.p1, a.p>>)>>
      [] a.t = "cubic" -> <<Curve(<<Start(x, j), a.p1, a.p2, a.p>>)>>
      [] a.t = "arc" -> <<Arc0("ellipse", a.e, a.d0, a.d1, ~a.sweep)>>
PathItems(x) == FlattenSeq([j \in DOMAIN x.parts |-> PartItems(x, j)])

From(m) == IF m.e = <<>> THEN Head(m.pts) ELSE At(m.e, IF m.rev THEN m.d1 ELSE m.d0)
To(m) == IF m.e = <<>> THEN m.pts[Len(m.pts)] ELSE At(m.e, IF m.rev THEN m.d0 ELSE m.d1)
Joined(s) == \A j \in 1..(Len(s) - 1) : To(s[j]) = From(s[j + 1])

Built(g) == Run(Empty(g.p0), g.ops)
\* The items of an object
Marks(g) ==
    CASE g.t \in {"segment", "quadratic", "cubic", "polyline", "polygon", "triangle", "rectangle"} ->
            <<Item0(IF g.t = "triangle" THEN "polygon" ELSE g.t, g.pts)>>
      [] g.t = "circle" -> <<Arc0("circle", [center |-> g.center, a |-> g.a, b |-> g.a, rot |-> Unit], g.d0, g.d1, FALSE)>>
      [] g.t = "ellipse" -> <<Arc0("ellipse", [center |-> g.center, a |-> g.a, b |-> g.b, rot |-> g.rot], g.d0, g.d1, g.rev)>>
      [] g.t = "spline" -> LET B == S!BezierPoints(g.pts, S!Uniform(Len(g.pts), g.degree), g.degree) IN [j \in DOMAIN B |-> Curve(B[j])]
      [] g.t = "chain" -> Chain(g.pts, g.degree)
      [] g.t = "path" -> LET x == Built(g) IN
            IF g.whole THEN <<[Item0("path", <<x.p0>>) EXCEPT !.sub = PathItems(x), !.closed = x.closed]>> ELSE PathItems(x)
\* An object which cannot be an item: an infinite line, a flat triangle, a chain of a wrong number of points or degree
IsRefused(g) == g.t = "line" \/ (g.t = "triangle" /\ Cross(VSub(g.pts[2], g.pts[1]), VSub(g.pts[3], g.pts[1])) = I(0)) \/ (g.t = "chain" /\ (g.degree \notin 1..3 \/ (Len(g.pts) - 1) % g.degree # 0))
IsUndefined(g) == g.t = "path" /\ ~AllDefined(Built(g))

-----------------------------------------------------------------------------
AddedInit == /\ i \in DOMAIN Cases /\ c = Cases[i]
             /\ k = 0 /\ path = <<>> /\ items = <<>> /\ todo = <<>> /\ res = "ok"
Ops == c.ops
\* An operation begins: an object is added, the object of a previous operation is moved (it is no longer that of the scene), its items are removed
Effect(op) ==
    CASE op.o = "add" -> IF IsRefused(op.g) THEN res' = "refused" /\ UNCHANGED <<items, todo>>
                         ELSE IF IsUndefined(op.g) THEN res' = "undefined" /\ UNCHANGED <<items, todo>>
                         ELSE res' = "ok" /\ todo' = [j \in DOMAIN Marks(op.g) |-> [Marks(op.g)[j] EXCEPT !.own = k + 1]] /\ UNCHANGED items
      [] op.o = "move" -> res' = "ok" /\ UNCHANGED <<items, todo>>
      [] op.o = "remove" -> res' = "ok" /\ items' = SelectSeq(items, LAMBDA m : m.own # op.n) /\ UNCHANGED todo
Begin(op) == k' = k + 1 /\ Effect(op) /\ UNCHANGED <<c, i, path>>
AddItem == /\ todo # <<>> /\ items' = Append(items, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<c, i, k, path, res>>
AddedNext == IF todo # <<>> THEN AddItem ELSE k < Len(Ops) /\ Begin(Ops[k + 1])

-----------------------------------------------------------------------------
\* Bounded model: every history of Depth operations on a few objects
Line1(v, r) == <<"line", v, FALSE, r>>
Arc1(d0, d1, sweep) == <<"arc", I(2), I(1), Unit, d0, d1, sweep, FALSE>>
PathOf(ops, whole) == [t |-> "path", p0 |-> V(1, 0), ops |-> ops, whole |-> whole]
Paths1 == { << Arc1(V(0, 1), V(-1, 0), TRUE) >>, << Line1(V(2, 0), I(0)), Arc1(V(1, 0), V(0, 1), FALSE), Line1(V(1, 1), I(0)) >>,
            << Line1(V(4, 0), I(0)), Line1(V(0, 4), R(1, 2)), Line1(V(-4, 0), I(1)), <<"close", I(0), R(1, 2)>> >>,
            << <<"rounded", I(4), I(3), I(1)>> >>, << Line1(V(4, 0), I(0)), Line1(V(0, -4), I(1)), <<"quadratic", V(1, 1), V(2, 0), FALSE>> >> }
Objects == { [t |-> "segment", pts |-> <<V(0, 0), V(1, 2)>>], [t |-> "spline", pts |-> <<V(0, 0), V(2, 0), V(2, 2), V(0, 2)>>, degree |-> 2],
             [t |-> "spline", pts |-> <<V(0, 0), V(2, 0), V(2, 2), V(0, 2), V(-2, 3)>>, degree |-> 3],
             [t |-> "ellipse", center |-> V(1, 1), a |-> I(2), b |-> I(1), rot |-> V(0, 1), d0 |-> V(1, 0), d1 |-> V(0, 1), rev |-> TRUE],
             [t |-> "chain", pts |-> <<V(0, 0), V(2, 0), V(2, 2)>>, degree |-> 1], [t |-> "chain", pts |-> <<V(0, 0), V(2, 0), V(2, 2)>>, degree |-> 3] }
           \cup { PathOf(s, w) : s \in Paths1, w \in BOOLEAN }
Steps == { [o |-> "add", g |-> g] : g \in Objects } \cup { [o |-> o, n |-> n, by |-> V(2, 1)] : o \in {"move", "remove"}, n \in 1..(k + 1) }
ModelInit == /\ i = 0 /\ c = [ops |-> <<>>, offset |-> V(0, 0)] /\ k = 0 /\ path = <<>> /\ items = <<>> /\ todo = <<>> /\ res = "ok"
CanDo(op) == IF op.o = "add" THEN TRUE ELSE (op.n <= k /\ Ops[op.n].o = "add" /\ \A j \in DOMAIN Ops : Ops[j].o # "add" => Ops[j].n # op.n)
ModelNext == IF todo # <<>> THEN AddItem
             ELSE \E op \in Steps : /\ k < Depth /\ CanDo(op)
                                    /\ k' = k + 1 /\ c' = [c EXCEPT !.ops = Append(@, op)]
                                    /\ Effect(op)
                                    /\ UNCHANGED <<i, path>>

-----------------------------------------------------------------------------
Of(n) == SelectSeq(items, LAMBDA m : m.own = n)
Is(n, t) == n \in DOMAIN Ops /\ Ops[n].o = "add" /\ Ops[n].g.t = t
Idle == todo = <<>>
AddedLaws ==
    \* the items are in order of insertion
    /\ \A a, b \in DOMAIN items : a < b => items[a].own <= items[b].own
    \* a path, a spline, a chain are joined; a closed path ends at its start
    /\ \A n \in 1..k : Joined(Of(n))
    /\ \A a \in DOMAIN items : Joined(items[a].sub)
    /\ Idle => \A n \in 1..k : Is(n, "path") /\ ~IsUndefined(Ops[n].g) /\ Built(Ops[n].g).closed =>
          LET m == IF Ops[n].g.whole /\ Of(n) # <<>> THEN Of(n)[1].sub ELSE Of(n) IN m # <<>> => To(m[Len(m)]) = From(m[1])
    \* a spline begins and ends at its first and last points
    /\ Idle => \A n \in 1..k : Is(n, "spline") /\ Of(n) # <<>> =>
          LET P == Ops[n].g.pts m == Of(n) IN From(m[1]) = P[1] /\ To(m[Len(m)]) = P[Len(P)]
    \* a refused object adds nothing
    /\ \A n \in 1..k : Ops[n].o # "add" \/ IsRefused(Ops[n].g) => Of(n) = <<>>
\* only the items of the current operation change
Apart == [][ LET rest(s) == SelectSeq(s, LAMBDA m : m.own < k') IN
             \/ rest(items') = rest(items)
             \/ c'.ops[k'].o = "remove" /\ k' = k + 1 /\ rest(items') = SelectSeq(rest(items), LAMBDA m : m.own # c'.ops[k'].n) ]_avars

Placed(m) == [m EXCEPT !.pts = [j \in DOMAIN @ |-> VAdd(c.offset, @[j])], !.e = IF @ = <<>> THEN @ ELSE [@ EXCEPT !.center = VAdd(c.offset, @)]]
Ends(m) == IF m.e # <<>> /\ m.d0 # <<>> THEN <<At(m.e, m.d0), At(m.e, m.d1)>> ELSE <<>>
Seen(m) == LET p == Placed(m) IN [own |-> p.own, t |-> p.t, pts |-> p.pts, e |-> p.e, closed |-> p.closed, ends |-> Ends(p),
                                 sub |-> [j \in DOMAIN p.sub |-> LET q == Placed(p.sub[j]) IN [t |-> q.t, pts |-> q.pts, e |-> q.e, rev |-> q.rev, ends |-> Ends(q)]]]
EmitEnd == Idle /\ (k = Len(Ops) \/ i = 0) => PrintT(ToJson([i |-> i, k |-> k, res |-> res, h |-> IF i = 0 THEN Ops ELSE <<>>, items |-> [j \in DOMAIN items |-> Seen(items[j])]]))
EmitAll == Idle => PrintT(ToJson([i |-> i, k |-> k, res |-> res, h |-> IF i = 0 THEN Ops ELSE <<>>, items |-> [j \in DOMAIN items |-> Seen(items[j])]]))
=============================================================================
