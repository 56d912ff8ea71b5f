------------------------------ MODULE Primitive ------------------------------
(* Contract of the primitives defined by points: the state of a primitive is the sequence of its
   points and nothing else, the transformations act in place or on a clone, a clone is independent.

   Two registers hold a primitive: x and y.                                                     *)
EXTENDS Vec, TLC, Json, IOUtils

CONSTANTS Start,    \* index of the initial point sequence
          Limit,    \* bound of the coordinates
          MaxSteps, \* bound of the number of operations
          Fixed     \* are the points set one by one
VARIABLES x, y, act, step, prog
vars == <<x, y, act, step, prog>>

Starts == << << V(0, 1), V(2, 0) >>,
             << V(0, 0), V(2, 1), V(1, 2) >>,
             << V(0, 0), V(2, 0), V(2, 1), V(-1, 2) >>,
             << V(1, 0), V(2, 2), V(0, 3), V(-1, 2), V(-1, 1) >> >>

\* quarter turn of a sequence, scale, translation
MapRot(s, k) == [i \in DOMAIN s |-> Turn(s[i], k)]
MapScale(s, k, l) == [i \in DOMAIN s |-> <<RMul(k, s[i][1]), RMul(l, s[i][2])>>]
MapTrans(s, v) == [i \in DOMAIN s |-> VAdd(s[i], v)]
Image(op, s) ==
    CASE op[1] = "rotate" -> MapRot(s, op[2])
      [] op[1] = "mirror" -> MapScale(s, I(-1), I(-1))
      [] op[1] = "x_mirror" -> MapScale(s, I(-1), I(1))
      [] op[1] = "y_mirror" -> MapScale(s, I(1), I(-1))
      [] op[1] = "scale" -> MapScale(s, op[2][1], op[2][2])
      [] op[1] = "translate" -> MapTrans(s, op[2])
      [] op[1] = "identity" -> s
Ops == {<<"rotate", k>> : k \in 1 .. 3} \cup
       {<<"mirror">>, <<"x_mirror">>, <<"y_mirror">>, <<"identity">>} \cup
       {<<"scale", <<I(2), I(2)>>>>, <<"scale", <<I(1), <<1, 2>>>>>>, <<"scale", <<I(-1), I(1)>>>>} \cup
       {<<"translate", V(1, -1)>>, <<"translate", V(-2, 1)>>}
Sets == {<<i, p>> : i \in DOMAIN x, p \in {V(3, -2), V(-3, 3)}}

\* the transition relation as a function of an operation
Do(a) ==
    CASE a[1] = "inplace" -> <<Image(a[2], x), y>>
      [] a[1] = "cloned" -> <<x, Image(a[2], x)>>
      [] a[1] = "clone" -> <<x, x>>
      [] a[1] = "reverse" -> <<x, Reverse(x)>>
      [] a[1] = "set" -> <<[x EXCEPT ![a[2]] = a[3]], y>>
      [] a[1] = "swap" -> <<y, x>>
Step(a) == /\ x' = Do(a)[1] /\ y' = Do(a)[2] /\ act' = a /\ step' = step + 1 /\ UNCHANGED prog

Small(s) == \A i \in DOMAIN s : \A k \in {1, 2} : RLe(I(-Limit), s[i][k]) /\ RLe(s[i][k], I(Limit))
Bounded == Small(x) /\ Small(y)

Init == x = Starts[Start] /\ y = Starts[Start] /\ act = <<"init">> /\ step = 0 /\ prog = 0
Next == /\ step < MaxSteps
        /\ \/ \E op \in Ops : Step(<<"inplace", op>>) \/ Step(<<"cloned", op>>)
           \/ Step(<<"clone">>) \/ Step(<<"reverse">>) \/ Step(<<"swap">>)
           \/ Fixed /\ \E s \in Sets : Step(<<"set", s[1], s[2]>>)
View == <<x, y>>

-----------------------------------------------------------------------------
\* programs drawn by the harness: [points |-> .., ops |-> ..]
Programs == ndJsonDeserialize(IOEnv.VF_IN)
PInit == /\ prog \in DOMAIN Programs /\ x = Programs[prog].points /\ y = x /\ act = <<"init">> /\ step = 0
PNext == step < Len(Programs[prog].ops) /\ Step(Programs[prog].ops[step + 1])
EmitProgram == PrintT(ToJson([prog |-> prog, step |-> step, x |-> x, y |-> y]))

Obs(s) == [p |-> s, box |-> Box(s), r |-> Reverse(s)]
EmitStep == PrintT(ToJson([s |-> <<x, y>>, a |-> act', t |-> <<x', y'>>]))

\* Theorems: the operations are bijections, a reversal is an involution, a transformation commutes with it,
\* and the box of the image of a mirror or of a translation is the image of the box
BoxMap(op, b) == Box(<<Image(op, <<<<b[1], b[2]>>>>)[1], Image(op, <<<<b[3], b[4]>>>>)[1]>>)
Laws == /\ Reverse(Reverse(x)) = x
        /\ \A op \in Ops : /\ Image(op, Reverse(x)) = Reverse(Image(op, x))
                           /\ Box(Image(op, x)) = BoxMap(op, Box(x))
                           /\ Len(Image(op, x)) = Len(x)
=============================================================================
