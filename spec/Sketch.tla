-------------------------------- MODULE Sketch --------------------------------
(* A parametric sketch: operations are added one after another and place points, lines and curves.

   State: done, the operations executed so far; pts, name -> vector, Nowhere when the construction has no solution;
   out, what the last operation gives: its geometry and the operations it depends upon.

   A direction is a unit vector <<cos, sin>>, so that an angle is exact: the literal [k: "dir", d: unit vector] is written
   as a number of degrees by the harness.                                                         *)
EXTENDS Expr, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VF_IN)
VARIABLES i, c, done, pts, out
vars == <<i, c, done, pts, out>>

Nowhere == <<>>
Known(P) == { n \in DOMAIN P : P[n] # Nowhere }

-----------------------------------------------------------------------------
\* Expressions, where P are the points, M the measurements
Env(P, M, cur) == [ref |-> M, point |-> [n \in Known(P) |-> P[n]], cur |-> cur]
HasLength(v) == ~IsZero(v) /\ RIsSquare(Sq(v))
Length(v) == RSqrt(Sq(v))
Unit(v) == VScale(RInv(Length(v)), v)
QuarterTurns(x) == x[2] = 1 /\ x[1] % 90 = 0
NoDir == <<>>
RECURSIVE Dir(_, _, _)
Dir(e, P, M) ==
    CASE e.k = "dir" -> e.d
      [] e.k = "num" -> IF QuarterTurns(e.v) THEN Turn(V(1, 0), (e.v[1] \div 90) % 4) ELSE NoDir
      [] e.k = "ref" -> IF e.n \in DOMAIN M /\ QuarterTurns(M[e.n]) THEN Turn(V(1, 0), (M[e.n][1] \div 90) % 4) ELSE NoDir
      [] e.k = "angle" -> IF {e.p, e.q} \subseteq Known(P) /\ HasLength(VSub(P[e.q], P[e.p])) THEN Unit(VSub(P[e.q], P[e.p])) ELSE NoDir
      [] e.k = "neg" -> LET d == Dir(e.a, P, M) IN IF d = NoDir THEN d ELSE Conj(d)
      [] e.k \in {"add", "sub"} -> LET a == Dir(e.a, P, M) b == Dir(e.b, P, M)
                                   IN IF NoDir \in {a, b} THEN NoDir ELSE RotateCS(a, b[1], IF e.k = "add" THEN b[2] ELSE RNeg(b[2]))
      [] OTHER -> NoDir

-----------------------------------------------------------------------------
\* Constructions
LineMeet(p, q, u, v) ==
    LET d == VSub(q, p) e == VSub(v, u) k == Cross(d, e)
    IN IF k[1] = 0 THEN Nowhere ELSE VAdd(p, VScale(RDiv(Cross(VSub(u, p), e), k), d))
\* the points of a line on a circle
OnCircle(p, q, o, r) ==
    LET d == VSub(q, p) w == VSub(p, o) a == Sq(d) b == Dot(d, w) delta == RSub(RSq(b), RMul(a, RSub(Sq(w), RSq(r))))
        at(s) == VAdd(p, VScale(RDiv(RAdd(RNeg(b), s), a), d))
    IN IF delta[1] < 0 THEN {} ELSE { at(RSqrt(delta)), at(RNeg(RSqrt(delta))) }
\* one of them, which lies in the segment when possible
Contacts(p, q, o, r) == LET S == OnCircle(p, q, o, r) T == { x \in S : OnSegment(p, q, x) } IN IF T = {} THEN S ELSE T

\* Value of an operation: the points which it may place (a set), or the points of a line or a curve (a sequence)
PointKinds == {"single", "along", "end", "intersect", "normal", "contact", "poi"}
At(op, P, M) ==
    LET val(e, cur) == Value(e, Env(P, M, cur))
        pq == VSub(P[op.q], P[op.p])
    IN CASE op.t = "single" -> { <<val(op.x, Undefined), val(op.y, Undefined)>> }
         [] op.t = "along" -> { VAdd(P[op.p], VScale(val(op.len, Length(pq)), Unit(pq))) }
         [] op.t = "end" -> { VAdd(P[op.p], VScale(val(op.len, Undefined), Dir(op.angle, P, M))) }
         [] op.t = "normal" -> LET d == Dir(op.angle, P, M)
                               IN { VAdd(P[op.p], VScale(val(op.len, Length(pq)), RotateCS(Turn(Unit(pq), 1), d[1], d[2]))) }
         [] op.t = "poi" -> { <<P[op.p][1], P[op.q][2]>> }
         [] op.t = "intersect" -> LET x == LineMeet(P[op.p], P[op.q], P[op.u], P[op.v]) IN IF x = Nowhere THEN {} ELSE { x }
         [] op.t = "contact" -> Contacts(P[op.p], P[op.q], P[op.center], val(op.radius, Undefined))
Geometry(op, P, M) ==
    CASE op.t = "line" -> <<P[op.p], P[op.q]>>
      [] op.t = "spline" -> LET ctl(n, a, l) == VAdd(P[n], VScale(Value(l, Env(P, M, Undefined)), Dir(a, P, M)))
                            IN <<P[op.p], ctl(op.p, op.a1, op.l1), ctl(op.q, op.a2, op.l2), P[op.q]>>
      [] OTHER -> LET S == At(op, P, M) IN IF Cardinality(S) = 1 THEN <<CHOOSE x \in S : TRUE>> ELSE <<>>

\* Names used by an operation: its points, and those of its expressions
Named(op) == CASE op.t \in {"along", "normal", "poi", "line", "spline"} -> {op.p, op.q}
               [] op.t = "end" -> {op.p}
               [] op.t = "intersect" -> {op.p, op.q, op.u, op.v}
               [] op.t = "contact" -> {op.p, op.q, op.center}
               [] OTHER -> {}
Expressions(op) == CASE op.t = "single" -> <<op.x, op.y>>
                     [] op.t = "along" -> <<op.len>>
                     [] op.t \in {"end", "normal"} -> <<op.angle, op.len>>
                     [] op.t = "contact" -> <<op.radius>>
                     [] op.t = "spline" -> <<op.a1, op.l1, op.a2, op.l2>>
                     [] OTHER -> <<>>
DependsOn(op) == Named(op) \cup UNION { PointRefs(Expressions(op)[j]) : j \in DOMAIN Expressions(op) }

-----------------------------------------------------------------------------
\* One operation. An operation which uses an unknown name is refused.
Accepted(op, P) == Named(op) \subseteq DOMAIN P
Execute(op, M) ==
    IF Accepted(op, pts)
    THEN /\ done' = Append(done, op)
         /\ LET g == Geometry(op, pts, M)
            IN /\ pts' = IF op.t \in PointKinds
                         THEN [n \in DOMAIN pts \cup {op.name} |-> IF n = op.name THEN (IF g = <<>> THEN Nowhere ELSE g[1]) ELSE pts[n]]
                         ELSE pts
               /\ out' = [ok |-> TRUE, g |-> g, some |-> IF op.t \in PointKinds THEN At(op, pts, M) ELSE {}, deps |-> DependsOn(op)]
    ELSE UNCHANGED <<done, pts>> /\ out' = [ok |-> FALSE, g |-> <<>>, some |-> {}, deps |-> {}]

Nothing == [ok |-> TRUE, g |-> <<>>, some |-> {}, deps |-> {}]
Start == done = <<>> /\ pts = [n \in {} |-> Nowhere] /\ out = Nothing

VARIABLES k
kvars == <<i, c, done, pts, out, k>>
Meas == [n \in { c.ms[j].n : j \in DOMAIN c.ms } |-> (CHOOSE j \in DOMAIN c.ms : c.ms[j].n = n)]
MeasValue == [n \in DOMAIN Meas |-> c.ms[Meas[n]].v]
CaseInit == i \in DOMAIN Cases /\ c = Cases[i] /\ k = 0 /\ Start
CaseNext == k < Len(c.ops) /\ Execute(c.ops[k + 1], MeasValue) /\ k' = k + 1 /\ UNCHANGED <<i, c>>

\* Bounded model: which operations are possible from the current points, over a few literals
CONSTANTS Depth
NumE(n, d) == [k |-> "num", v |-> R(n, d)]
Cur == [k |-> "cur"]
Lengths == { NumE(5, 2), [k |-> "div", a |-> Cur, b |-> NumE(2, 1)], [k |-> "neg", a |-> [k |-> "line", p |-> "A", q |-> "B"]] }
Angles == { NumE(0, 1), NumE(90, 1), [k |-> "angle", p |-> "A", q |-> "B"] }
NewName == <<"A", "B", "C", "D", "E">>[Cardinality(DOMAIN pts) + 1]
Pairs == { pq \in Known(pts) \X Known(pts) : pts[pq[1]] # pts[pq[2]] /\ HasLength(VSub(pts[pq[2]], pts[pq[1]])) }
Small(x) == IF x = Nowhere THEN TRUE ELSE \A a \in {x[1], x[2]} : Abs(a[1]) < 2000 /\ a[2] < 200
Choices ==
    { [t |-> "along", name |-> NewName, p |-> x[1], q |-> x[2], len |-> l] : x \in Pairs, l \in Lengths }
    \cup { [t |-> "normal", name |-> NewName, p |-> x[1], q |-> x[2], angle |-> a, len |-> l] : x \in Pairs, a \in Angles, l \in {NumE(5, 2), Cur} }
    \cup { [t |-> "end", name |-> NewName, p |-> p, angle |-> a, len |-> NumE(5, 2)] : p \in Known(pts), a \in Angles }
    \cup { [t |-> "poi", name |-> NewName, p |-> p, q |-> q] : p \in Known(pts), q \in Known(pts) }
    \cup { [t |-> "intersect", name |-> NewName, p |-> x[1], q |-> x[2], u |-> y[1], v |-> y[2]] : x \in Pairs, y \in Pairs }
    \cup { [t |-> "line", p |-> x[1], q |-> x[2]] : x \in Pairs }
    \cup { [t |-> "poi", name |-> NewName, p |-> "Z", q |-> "A"] }   \* refused
A0 == [t |-> "single", name |-> "A", x |-> NumE(1, 2), y |-> NumE(0, 1)]
B0 == [t |-> "end", name |-> "B", p |-> "A", angle |-> [k |-> "dir", d |-> <<<<4, 5>>, <<3, 5>>>>], len |-> NumE(5, 1)]
NoMeas == [n \in {} |-> I(0)]
ModelInit == Start /\ i = 0 /\ c = <<>> /\ k = 0
ModelNext == /\ k < Depth + 2
             /\ IF k = 0 THEN Execute(A0, NoMeas) ELSE IF k = 1 THEN Execute(B0, NoMeas)
                ELSE \E op \in Choices : Execute(op, NoMeas) /\ (IF op.t \in PointKinds /\ Accepted(op, pts) THEN Small(pts'[op.name]) ELSE TRUE)
             /\ k' = k + 1 /\ UNCHANGED <<i, c>>

-----------------------------------------------------------------------------
\* Theorems
\* the dependencies of an operation are points placed before: the order of the operations is a topological order
Acyclic == \A j \in DOMAIN done : DependsOn(done[j]) \subseteq { done[m].name : m \in { m \in 1..(j - 1) : done[m].t \in PointKinds } }
Last == done[Len(done)]
Placed == out.ok /\ done # <<>> /\ Last.t \in PointKinds /\ out.g # <<>>
Constructed ==
    Placed => LET op == Last x == out.g[1] M == IF c = <<>> THEN NoMeas ELSE MeasValue
                  pq == IF op.t \in {"single", "end"} THEN Zero2 ELSE VSub(pts[op.q], pts[op.p])
              IN CASE op.t = "along" -> Aligned(pts[op.p], pts[op.q], x) /\ Sq(VSub(x, pts[op.p])) = RSq(Value(op.len, Env(pts, M, Length(pq))))
                   [] op.t = "normal" -> /\ Sq(VSub(x, pts[op.p])) = RSq(Value(op.len, Env(pts, M, Length(pq))))
                                         /\ (op.angle.k = "num" /\ op.angle.v = I(0)) => Dot(pq, VSub(x, pts[op.p]))[1] = 0
                   [] op.t = "end" -> Sq(VSub(x, pts[op.p])) = RSq(Value(op.len, Env(pts, M, Undefined)))
                   [] op.t = "intersect" -> Aligned(pts[op.p], pts[op.q], x) /\ Aligned(pts[op.u], pts[op.v], x)
                   [] op.t = "contact" -> /\ Aligned(pts[op.p], pts[op.q], x)
                                          /\ Sq(VSub(x, pts[op.center])) = RSq(Value(op.radius, Env(pts, M, Undefined)))
                   [] OTHER -> TRUE
Laws == Acyclic /\ Constructed
\* a placed point does not move
Still == [][\A n \in DOMAIN pts : pts'[n] = pts[n]]_kvars

Emit == PrintT(ToJson([i |-> i, k |-> k, out |-> out]))
EmitStep == IF k' > 2 THEN PrintT(ToJson([s |-> done, a |-> IF out'.ok THEN done'[Len(done')] ELSE <<"refused">>, t |-> done', out |-> out'])) ELSE TRUE
=============================================================================
