------------------------------- MODULE Vector -------------------------------
(* A register which holds a plane vector, transformed by the operations of the vector algebra,   *)
(* and the relations between two vectors.                                                        *)
EXTENDS Vec, TLC, Json, IOUtils, FiniteSets

CONSTANTS N,        \* grid of the operands
          Limit     \* bound of the register
VARIABLES u, act

vars == <<u, act>>
View == u

Grid == { V(x, y) : x, y \in -N .. N }
Scalars == { I(2), I(-1), <<1, 2>>, <<-3, 2>> }
Small(w) == /\ RLe(RAbs(w[1]), I(Limit)) /\ RLe(RAbs(w[2]), I(Limit)) /\ w[1][2] <= 4 /\ w[2][2] <= 4

Init == u \in { V(0, 0), V(1, 0), V(-2, 1) } /\ act = <<"init">>
Do(name, arg, result) == Small(result) /\ u' = result /\ act' = <<name, arg>>

Next == \/ \E w \in Grid : Do("add", w, VAdd(u, w)) \/ Do("sub", w, VSub(u, w))
        \/ \E k \in Scalars : Do("mul", k, VScale(k, u)) \/ Do("div", k, VScale(RInv(k), u))
        \/ \E k \in Scalars, l \in Scalars : Do("scale", <<k, l>>, <<RMul(k, u[1]), RMul(l, u[2])>>)
                                          \/ Do("divide", <<k, l>>, <<RDiv(u[1], k), RDiv(u[2], l)>>)
        \/ Do("neg", <<>>, VNeg(u)) \/ Do("pos", <<>>, u) \/ Do("parity", <<>>, VNeg(u))
        \/ Do("abs", <<>>, <<RAbs(u[1]), RAbs(u[2])>>)
        \/ Do("normal", <<>>, Turn(u, 1)) \/ Do("anti_normal", <<>>, Turn(u, 3))
        \/ Do("permute", <<>>, <<u[2], u[1]>>)
        \/ \E n \in 0 .. 3 : Do("rotate", n, Turn(u, n))
        \/ \E w \in Grid : Do("middle", w, Mid(u, w))

\* Laws of the algebra on the reachable vectors
Laws == /\ Turn(Turn(u, 1), 3) = u
        /\ Dot(u, Turn(u, 1)) = I(0)
        /\ Cross(u, Turn(u, 1)) = Sq(u)
        /\ \A w \in { V(1, 2), V(-1, 0) } : /\ Cross(u, w) = RNeg(Cross(w, u))
                                            /\ RAdd(RSq(Dot(u, w)), RSq(Cross(u, w))) = RMul(Sq(u), Sq(w))

EmitStep == PrintT(ToJson([s |-> u, a |-> act', t |-> u']))

-----------------------------------------------------------------------------
\* Relations between two vectors of the grid or of the harness
Pairs == ndJsonDeserialize(IOEnv.VF_IN)
VARIABLE w
RInit == \E k \in DOMAIN Pairs : /\ u = Pairs[k][1] /\ w = Pairs[k][2] /\ act = <<"init">>
GInit == \E p \in Grid, q \in Grid : u = p /\ w = q /\ act = <<"init">>
RNext == FALSE /\ UNCHANGED <<u, w, act>>

\* the nearest integers of a coordinate: two of them half way
Nearest(x) == LET f == x[1] \div x[2] IN { n \in { f, f + 1 } : RLe(RAbs(RSub(I(n), x)), <<1, 2>>) }
Rounded == \A x \in { u[1], u[2] } : /\ Nearest(x) # {}
                                     /\ x[2] = 1 => Nearest(x) = { x[1] }
                                     /\ Cardinality(Nearest(x)) = 2 => x[2] = 2

\* Angle class of (u -> w): signs of the cosine and of the sine and their squares
Relation == [ u |-> u, w |-> w,
              dot |-> Dot(u, w), cross |-> Cross(u, w),
              equal |-> u = w,
              parallel |-> Cross(u, w) = I(0), orthogonal |-> Dot(u, w) = I(0),
              sq |-> Sq(u),
              zero |-> IsZero(u),
              \* signed squares of the quantities which divide by a length
              proj |-> IF IsZero(w) THEN I(0) ELSE RDiv(SSq(Dot(u, w)), Sq(w)),
              dev  |-> IF IsZero(w) THEN I(0) ELSE RDiv(SSq(Cross(w, u)), Sq(w)),
              cos  |-> IF IsZero(w) \/ IsZero(u) THEN I(0) ELSE RDiv(SSq(Dot(u, w)), RMul(Sq(u), Sq(w))),
              sin  |-> IF IsZero(w) \/ IsZero(u) THEN I(0) ELSE RDiv(SSq(Cross(w, u)), RMul(Sq(u), Sq(w))),
              mid |-> Mid(u, w),
              near |-> << Nearest(u[1]), Nearest(u[2]) >> ]
Pythagoras == RAdd(RSq(Dot(u, w)), RSq(Cross(u, w))) = RMul(Sq(u), Sq(w))
EmitRelation == PrintT(ToJson(Relation))

MInit == Init /\ w = Zero2
MNext == Next /\ UNCHANGED w
=============================================================================
