------------------------------ MODULE Calculator ------------------------------
(* The calculator: a measurement set, points which are added and moved, the current segment, and expressions which are
   evaluated, invalidated and evaluated again.

   One case: ms, the definitions of the measurements; exprs, a pool of expressions; ops, a history.
   k is the number of executed operations.                                                        *)
EXTENDS Measurements
VARIABLES c, k, pts, cur, val
cvars == <<defs, asked, act, i, c, k, pts, cur, val>>

None == <<-1, 0>>  \* not evaluated
Env == [ref |-> [n \in Names(c.ms) |-> ValueOf(c.ms, n, {})], point |-> pts,
        cur |-> IF cur = Zero2 \/ ~RIsSquare(Sq(cur)) THEN Undefined ELSE RSqrt(Sq(cur))]

CalcInit == /\ i \in DOMAIN Sets /\ c = Sets[i]
            /\ defs = <<>> /\ asked = {} /\ act = <<"init">>
            /\ k = 0 /\ pts = NoPoints /\ cur = Zero2 /\ val = [j \in DOMAIN c.exprs |-> None]

Op == c.ops[k + 1]
\* a point is added, or moved
Point == Op[1] = "point" /\ pts' = [n \in DOMAIN pts \cup {Op[2]} |-> IF n = Op[2] THEN Op[3] ELSE pts[n]] /\ UNCHANGED <<cur, val>>
Segment == Op[1] = "segment" /\ cur' = Op[2] /\ UNCHANGED <<pts, val>>
\* an evaluated expression keeps its value until it is invalidated
AskIt == Op[1] = "ask" /\ val' = [val EXCEPT ![Op[2]] = IF @ \in {None, Undefined} THEN Value(c.exprs[Op[2]], Env) ELSE @]
       /\ UNCHANGED <<pts, cur>>
Invalidate == Op[1] = "dirty" /\ val' = [val EXCEPT ![Op[2]] = None] /\ UNCHANGED <<pts, cur>>
CalcNext == k < Len(c.ops) /\ (Point \/ Segment \/ AskIt \/ Invalidate) /\ k' = k + 1 /\ UNCHANGED <<defs, asked, act, i, c>>

\* Theorems
\* points which do not occur in an expression do not matter
Local == \A j \in DOMAIN c.exprs :
            LET e == c.exprs[j] P == PointRefs(e) \cap DOMAIN pts
            IN Value(e, Env) = Value(e, [Env EXCEPT !.point = [n \in P |-> pts[n]],
                                                    !.ref = [n \in Refs(e) \cap Names(c.ms) |-> Env.ref[n]]])
\* the length of a line is symmetric, its direction turns by half a turn
Mirror == \A p, q \in DOMAIN pts : pts[p] # pts[q] =>
             /\ Value([k |-> "line", p |-> p, q |-> q], Env) = Value([k |-> "line", p |-> q, q |-> p], Env)
             /\ LET a == Value([k |-> "angle", p |-> p, q |-> q], Env) b == Value([k |-> "angle", p |-> q, q |-> p], Env)
                IN a # Undefined => RAbs(RSub(a, b)) = I(180)
CalcLaws == Local /\ Mirror
CalcEmit == PrintT(ToJson([i |-> i, k |-> k,
                           v |-> IF k > 0 /\ c.ops[k][1] = "ask" THEN val[c.ops[k][2]] ELSE <<>>,
                           deps |-> IF k > 0 /\ c.ops[k][1] = "ask" THEN PointRefs(c.exprs[c.ops[k][2]]) ELSE {}]))
=============================================================================
