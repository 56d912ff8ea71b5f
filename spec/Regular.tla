------------------------------- MODULE Regular -------------------------------
(* A regular polygon is cloned, reversed and mapped by similarities.

   Its vertices are the center plus its radius in the directions d turned by (m + sense * i) n-ths of a turn, i in 0 .. n - 1,
   where d is a rational direction: the state is exact though the vertices are not rational.
   One case is a program on two registers; x is the polygon at work, y another one.                               *)
EXTENDS Vec, Sequences, TLC, Json, IOUtils
VARIABLES j, k, x, y
rvars == <<j, k, x, y>>
Programs == ndJsonDeserialize(IOEnv.VF_IN)
case == Programs[j]

Turns == 0 .. case.n - 1
ModN(m) == m % case.n
RInit == /\ j \in DOMAIN Programs /\ k = 0
         /\ x = [center |-> Programs[j].center, radius |-> Programs[j].radius, d |-> Programs[j].d, m |-> 0, sense |-> 1]
         /\ y = x

\* the vertices in the other order: the last one becomes the first one
Reversed(p) == [p EXCEPT !.m = ModN(p.m - p.sense + case.n), !.sense = -p.sense]
Reflect(p, f(_)) == [p EXCEPT !.center = f(p.center), !.d = f(p.d), !.m = ModN(case.n - p.m), !.sense = -p.sense]
Turned(p, f(_)) == [p EXCEPT !.center = f(p.center), !.d = f(p.d)]
FlipX(v) == <<RNeg(v[1]), v[2]>>
FlipY(v) == <<v[1], RNeg(v[2])>>
Map(p, op) ==
    CASE op[1] = "translate" -> [p EXCEPT !.center = VAdd(@, op[2])]
      [] op[1] = "rotate" -> Turned(p, LAMBDA v : RotateCS(v, op[2][1], op[2][2]))
      [] op[1] = "mirror" -> Turned(p, VNeg)
      [] op[1] = "scale" -> [p EXCEPT !.center = VScale(op[2], @), !.radius = RMul(RAbs(op[2]), @),
                                      !.d = IF op[2][1] < 0 THEN VNeg(@) ELSE @]
      [] op[1] = "x_mirror" -> Reflect(p, FlipX)   \* the sign of x is changed
      [] op[1] = "y_mirror" -> Reflect(p, FlipY)
      [] op[1] = "identity" -> p
Do(op) == CASE op[1] = "inplace" -> /\ x' = Map(x, op[2]) /\ y' = y
            [] op[1] = "cloned" -> /\ x' = x /\ y' = Map(x, op[2])
            [] op[1] = "clone" -> /\ x' = x /\ y' = x
            [] op[1] = "reverse" -> /\ x' = x /\ y' = Reversed(x)
            [] op[1] = "recenter" -> /\ x' = [x EXCEPT !.center = Zero2] /\ y' = y
            [] op[1] = "swap" -> /\ x' = y /\ y' = x
RNext == /\ k < Len(case.ops) /\ k' = k + 1 /\ j' = j /\ Do(case.ops[k + 1])

\* directions, indices and senses; what is undone
Laws == \A p \in { x, y } :
    /\ Sq(p.d) = I(1) /\ p.m \in Turns /\ p.sense \in { 1, -1 } /\ p.radius[1] > 0
    /\ Reversed(Reversed(p)) = p
    /\ Map(Map(p, <<"mirror">>), <<"mirror">>) = p
    /\ Map(Map(p, <<"x_mirror">>), <<"x_mirror">>) = p
    /\ Map(Map(p, <<"x_mirror">>), <<"y_mirror">>) = Map(p, <<"mirror">>)
Emit == PrintT(ToJson([prog |-> j, step |-> k, x |-> x, y |-> y]))
==============================================================================
