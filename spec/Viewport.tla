------------------------------ MODULE Viewport ------------------------------
(* The view of a scene in a window: a rectangle of the scene (the area) is shown in a window of w x h pixels,
   at a scale (pixels per unit of the scene). The y axis of the scene is upwards, the one of the window is downwards.

   State: size, <<w, h>> or <<>>; scene, [box, items] or <<>>; center and scale (<<>> until the scene was fitted in the window).
   The items are segments <<x1, y1, x2, y2>>, horizontal or vertical; selected is the set of those which are selected.
   Coordinates are rational numbers.                                                                    *)
EXTENDS Rat, FiniteSets, SequencesExt, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VF_IN)
CONSTANTS Depth
VARIABLES i, c, k, size, scene, center, scale, selected, out
state == <<size, scene, center, scale, selected>>
vars == <<i, c, k, size, scene, center, scale, selected, out>>

Half == <<1, 2>>
Q(x) == R(x[1], x[2])
Ready == size # <<>> /\ scene # <<>>
Shown == center # <<>>

\* Area of the scene in the window: xmin, ymin, xmax, ymax
Offset(a, sc) == RDiv(RMul(Half, I(size[a])), sc)
Left == RSub(center[1], Offset(1, scale))
Top == RAdd(center[2], Offset(2, scale))
Area == <<Left, RSub(center[2], Offset(2, scale)), RAdd(center[1], Offset(1, scale)), Top>>
ToWindow(p) == <<RMul(RSub(p[1], Left), scale), RMul(RSub(Top, p[2]), scale)>>
ToScene(p) == <<RAdd(Left, RDiv(p[1], scale)), RSub(Top, RDiv(p[2], scale))>>

\* The whole box is shown, as large as possible but a margin of 1 % on each side
FitScale(b) == LET S == { RDiv(I(size[a]), RMul(I(b[a + 2] - b[a]), R(102, 100))) : a \in { a \in {1, 2} : b[a + 2] > b[a] } }
               IN CHOOSE x \in S : \A y \in S : RLe(x, y)
Middle(b) == <<R(b[1] + b[3], 2), R(b[2] + b[4], 2)>>

\* Squared distance of a point to a horizontal or vertical segment
Beyond(x, a, b) == IF RLt(x, I(a)) THEN RSub(I(a), x) ELSE IF RLt(I(b), x) THEN RSub(x, I(b)) ELSE I(0)
Distance2(p, s) == RAdd(RSq(Beyond(p[1], s[1], s[3])), RSq(Beyond(p[2], s[2], s[4])))
\* x <= y, without large products
Closer(x, y) == LET a == x[1] \div x[2] b == y[1] \div y[2] IN IF a = b THEN (x[1] % x[2]) * y[2] <= (y[1] % y[2]) * x[2] ELSE a < b
Reach(n) == RDiv(I(n), scale)
Near(p, n) == { j \in DOMAIN scene.items : Closer(Distance2(p, scene.items[j]), RSq(Reach(n))) }
Nearest(p, n) == { j \in Near(p, n) : \A l \in Near(p, n) : Closer(Distance2(p, scene.items[j]), Distance2(p, scene.items[l])) }
\* the nearest item is known without doubt
Clear(p, n) == Cardinality(Nearest(p, n)) <= 1 /\ \A j \in DOMAIN scene.items : Distance2(p, scene.items[j]) # RSq(Reach(n))

-----------------------------------------------------------------------------
Result(r, x) == out' = [res |-> r, x |-> x]
Skip == UNCHANGED state /\ Result("skip", <<>>)
Tell(x) == UNCHANGED state /\ Result("ok", x)
See(ce, sc) == UNCHANGED <<size, scene, selected>> /\ center' = ce /\ scale' = sc /\ Result("ok", <<>>)
Fit(s, b) == center' = Middle(b) /\ scale' = (LET S == { RDiv(I(s[a]), RMul(I(b[a + 2] - b[a]), R(102, 100))) : a \in { a \in {1, 2} : b[a + 2] > b[a] } }
                                              IN CHOOSE x \in S : \A y \in S : RLe(x, y))
Execute(op) ==
    CASE op.o = "size" -> /\ size' = op.v /\ UNCHANGED <<scene, selected>> /\ Result("ok", <<>>)
                          /\ (IF scene # <<>> /\ ~Shown THEN Fit(op.v, scene.box) ELSE UNCHANGED <<center, scale>>)
      [] op.o = "scene" -> /\ scene' = [box |-> op.box, items |-> op.items] /\ selected' = {} /\ UNCHANGED size /\ Result("ok", <<>>)
                           /\ (IF size # <<>> THEN Fit(size, op.box) ELSE UNCHANGED <<center, scale>>)
      [] ~Ready -> IF op.o = "fit" THEN Tell(<<>>) ELSE Skip
      [] op.o = "fit" -> UNCHANGED <<size, scene, selected>> /\ Fit(size, scene.box) /\ Result("ok", <<>>)
      [] op.o = "zoom" -> See(ToScene(<<Q(op.p[1]), Q(op.p[2])>>), RMul(scale, Q(op.z)))
      [] op.o = "zoomc" -> See(center, RMul(scale, Q(op.z)))
      \* a move of dx pixels to the right, dy pixels to the top
      [] op.o = "pan" -> See(<<RAdd(center[1], RDiv(Q(op.p[1]), scale)), RAdd(center[2], RDiv(Q(op.p[2]), scale))>>, scale)
      [] op.o = "look" -> Tell(<<ToScene(<<Q(op.p[1]), Q(op.p[2])>>), ToWindow(<<Q(op.p[1]), Q(op.p[2])>>), RMul(Q(op.p[1]), scale), RDiv(Q(op.p[1]), scale)>>)
      [] op.o = "select" -> LET p == ToScene(<<Q(op.p[1]), Q(op.p[2])>>) N == Nearest(p, op.n)
                            IN IF Clear(p, op.n) THEN UNCHANGED <<size, scene, center, scale>> /\ selected' = N /\ Result("ok", SetToSeq(N)) ELSE Skip

Start == size = <<>> /\ scene = <<>> /\ center = <<>> /\ scale = <<>> /\ selected = {} /\ out = [res |-> "ok", x |-> <<>>]
CaseInit == i \in DOMAIN Cases /\ c = Cases[i] /\ k = 0 /\ Start
CaseNext == k < Len(c.ops) /\ Execute(c.ops[k + 1]) /\ k' = k + 1 /\ UNCHANGED <<i, c>>
View == [size |-> size, shown |-> Ready /\ Shown, center |-> center, scale |-> scale, selected |-> SetToSeq(selected), area |-> IF Ready /\ Shown THEN Area ELSE <<>>]
Emit == PrintT(ToJson([i |-> i, k |-> k, out |-> out, see |-> View]))

\* Bounded model
Alphabet == { [o |-> "size", v |-> <<204, 102>>], [o |-> "size", v |-> <<51, 102>>],
              [o |-> "scene", box |-> <<0, 0, 20, 10>>, items |-> << <<0, 0, 20, 0>>, <<10, 0, 10, 10>> >>], [o |-> "scene", box |-> <<-5, 0, 5, 40>>, items |-> << <<-5, 3, 5, 3>> >>],
              [o |-> "fit"], [o |-> "zoom", p |-> << <<3, 1>>, <<51, 1>> >>, z |-> <<2, 1>>], [o |-> "zoomc", z |-> <<1, 2>>],
              [o |-> "pan", p |-> << <<10, 1>>, <<0, 1>> >>], [o |-> "pan", p |-> << <<0, 1>>, <<-5, 1>> >>],
              [o |-> "select", p |-> << <<51, 1>>, <<40, 1>> >>, n |-> 10], [o |-> "look", p |-> << <<7, 1>>, <<3, 2>> >>] }
ModelInit == i = 0 /\ c = <<>> /\ k = 0 /\ Start
ModelNext == Len(c) < Depth /\ (\E op \in Alphabet : Execute(op) /\ c' = Append(c, op)) /\ out'.res # "skip" /\ UNCHANGED <<i, k>>
\* the whole history is part of the state
EmitHistory == PrintT(ToJson([t |-> c, out |-> out, see |-> View]))

-----------------------------------------------------------------------------
Laws == (Ready /\ Shown) =>
    /\ RSign(scale) > 0
    /\ ToScene(ToWindow(center)) = center
    /\ ToWindow(center) = <<R(size[1], 2), R(size[2], 2)>>                                 \* the centre is in the middle
    /\ ToWindow(<<Area[1], Area[4]>>) = <<I(0), I(0)>> /\ ToWindow(<<Area[3], Area[2]>>) = <<I(size[1]), I(size[2])>>
    /\ \A p \in { <<I(0), I(0)>>, <<I(3), R(7, 2)>> } : ToWindow(ToScene(p)) = p
\* a scene which was just fitted is whole in the window
Fitted == (Ready /\ Shown /\ center = Middle(scene.box) /\ scale = FitScale(scene.box)) =>
    RLt(Area[1], I(scene.box[1])) /\ RLt(Area[2], I(scene.box[2])) /\ RLt(I(scene.box[3]), Area[3]) /\ RLt(I(scene.box[4]), Area[4])
\* the scene is shown as soon as there are a scene and a window
Prompt == Ready => Shown
=============================================================================
