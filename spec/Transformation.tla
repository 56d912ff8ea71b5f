--------------------------- MODULE Transformation ---------------------------
(* Affine maps of the plane, composed on the left and on the right.                              *)
EXTENDS Affine, TLC, Json

CONSTANTS Depth, Linear     \* Linear: only the maps without translation
VARIABLES map, depth, act

vars == <<map, depth, act>>
View == map

CosSin == { <<I(1), I(0)>>, <<I(0), I(1)>>, <<I(-1), I(0)>>, <<I(0), I(-1)>>, <<<<3, 5>>, <<4, 5>>>>, <<<<-4, 5>>, <<3, 5>>>> }
Scales == { <<I(2), I(2)>>, <<<<1, 2>>, <<1, 2>>>>, <<I(-3), I(-3)>>, <<I(2), I(1)>>, <<I(1), I(-2)>>,
            <<I(-1), I(-1)>>, <<I(-1), I(1)>>, <<I(1), I(-1)>>, <<I(1), I(1)>> }
Vectors == { V(1, 0), V(-2, 3), V(0, 0) }

LinearOps == { <<"rotation", cs, Rotation(cs[1], cs[2])>> : cs \in CosSin }
             \cup { <<"scale", k, Scale(k[1], k[2])>> : k \in Scales }
             \cup { <<"identity", <<>>, Id>> }
AffineOps == { <<"translation", v, Translation(v)>> : v \in Vectors }
             \cup { <<"screen", h, Screen(h)>> : h \in { I(0), I(5) } }
             \cup { <<"rotation_at", <<v, cs>>, RotationAt(v, cs[1], cs[2])>> : v \in Vectors, cs \in CosSin }
Ops == IF Linear THEN LinearOps ELSE LinearOps \cup AffineOps

Init == map = Id /\ depth = 0 /\ act = <<"init">>

\* T := X * T (in place) and T := T * X
Next == /\ depth < Depth
        /\ depth' = depth + 1
        /\ \E x \in Ops : \/ map' = Compose(x[3], map) /\ act' = <<"after", x[1], x[2]>>
                          \/ map' = Compose(map, x[3]) /\ act' = <<"before", x[1], x[2]>>

\* Properties of a map
Similarity(f) == /\ RAdd(RSq(f.m[1]), RSq(f.m[3])) = RAdd(RSq(f.m[2]), RSq(f.m[4]))
                 /\ RAdd(RMul(f.m[1], f.m[2]), RMul(f.m[3], f.m[4])) = I(0)
Isometry(f) == Similarity(f) /\ RAdd(RSq(f.m[1]), RSq(f.m[3])) = I(1)
Points == << V(0, 0), V(1, 0), V(0, 1), V(2, -3) >>

Law == \A x \in { y \in Ops : y[1] \in {"rotation", "screen"} } : \A k \in DOMAIN Points :
          /\ Apply(Compose(map, x[3]), Points[k]) = Apply(map, Apply(x[3], Points[k]))
          /\ Det(Compose(map, x[3])) = RMul(Det(map), Det(x[3]))
Midpoints == Apply(map, Mid(Points[2], Points[4])) = Mid(Apply(map, Points[2]), Apply(map, Points[4]))

\* The classes of maps which a type announces
Obs == [ map |-> map, image |-> [k \in DOMAIN Points |-> Apply(map, Points[k])],
         identity |-> map = Id,
         factor2 |-> IF Similarity(map) THEN RAbs(Det(map)) ELSE I(0),
         similarity |-> Similarity(map),
         isometry |-> Isometry(map),
         homothety |-> map.t = Zero2 /\ map.m[2] = I(0) /\ map.m[3] = I(0) /\ map.m[1] = map.m[4],
         diagonal |-> map.t = Zero2 /\ map.m[2] = I(0) /\ map.m[3] = I(0),
         rotation |-> map.t = Zero2 /\ Isometry(map) /\ Det(map) = I(1),
         translation |-> map.m = Id.m,
         det |-> Det(map) ]
EmitStep == PrintT(ToJson([s |-> map, a |-> act', t |-> map']))
EmitState == PrintT(ToJson([obs |-> Obs]))
=============================================================================
