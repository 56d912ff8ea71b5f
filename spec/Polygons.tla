------------------------------ MODULE Polygons ------------------------------
(* Polygons given by their vertices: simplicity, convexity, orientation, area, barycenter, moments,
   inclusion of a point.                                                                         *)
EXTENDS Vec, TLC, Json, IOUtils

VARIABLES P, at   \* vertices, points to test
vars == <<P, at>>

Cases == ndJsonDeserialize(IOEnv.VF_IN)
CaseInit == \E k \in DOMAIN Cases : P = Cases[k].p /\ at = Cases[k].at
Next == FALSE /\ UNCHANGED vars

n == Len(P)
Nxt(i) == (i % n) + 1
Edge(i) == VSub(P[Nxt(i)], P[i])
Ids == 1 .. n

-----------------------------------------------------------------------------
\* two edges have no common point but the vertex shared by neighbours
Simple ==
    \A i \in Ids : \A j \in Ids : i < j =>
        IF Nxt(i) = j /\ Nxt(j) = i THEN FALSE
        ELSE IF Nxt(i) = j
        THEN ~ OnSegment(P[i], P[j], P[Nxt(j)]) /\ ~ OnSegment(P[j], P[Nxt(j)], P[i])
        ELSE IF Nxt(j) = i
        THEN ~ OnSegment(P[j], P[i], P[Nxt(i)]) /\ ~ OnSegment(P[i], P[Nxt(i)], P[j])
        ELSE ~ SegmentsMeet(P[i], P[Nxt(i)], P[j], P[Nxt(j)])

\* a simple polygon is convex when it lies on one side of each of its edges
Convex == /\ Simple
          /\ \A i \in Ids : \/ \A k \in Ids : ~ Left(P[i], P[Nxt(i)], P[k])
                            \/ \A k \in Ids : ~ Right(P[i], P[Nxt(i)], P[k])

Sum(f(_)) == LET RECURSIVE S(_)
                 S(i) == IF i = 0 THEN I(0) ELSE RAdd(f(i), S(i - 1))
             IN S(n)
Area2 == LET f(i) == Cross(P[i], P[Nxt(i)]) IN Sum(f)   \* twice the signed area
Area == RDiv(RAbs(Area2), I(2))
Clockwise == Area2[1] < 0
\* barycenter of the surface, by decomposition in triangles with a common vertex P[1]
Barycenter ==
    LET w(i) == Orient(P[1], P[i], P[Nxt(i)])
        x(i) == RMul(w(i), RAdd(P[1][1], RAdd(P[i][1], P[Nxt(i)][1])))
        y(i) == RMul(w(i), RAdd(P[1][2], RAdd(P[i][2], P[Nxt(i)][2])))
    IN <<RDiv(Sum(x), RMul(I(3), Area2)), RDiv(Sum(y), RMul(I(3), Area2))>>
PointBarycenter == VScale(<<1, n>>, VSum(P))

OnBoundary(p) == \E i \in Ids : OnSegment(P[i], P[Nxt(i)], p)
\* a half line to the right of p crosses the edge from a to b: +1 upward, -1 downward
Crossing(p, a, b) ==
    IF RLe(a[2], p[2]) /\ RLt(p[2], b[2]) /\ Left(a, b, p) THEN 1
    ELSE IF RLe(b[2], p[2]) /\ RLt(p[2], a[2]) /\ Right(a, b, p) THEN -1
    ELSE 0
Winding(p) == LET RECURSIVE S(_)
                  S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + Crossing(p, P[i], P[Nxt(i)])
              IN S(n)
Crossings(p) == Cardinality({ i \in Ids : Crossing(p, P[i], P[Nxt(i)]) # 0 })
Inside(p) == Winding(p) # 0

\* second moments of the vertices
Mxx == LET f(i) == RMul(P[i][1], P[i][1]) IN RDiv(Sum(f), I(n))
Myy == LET f(i) == RMul(P[i][2], P[i][2]) IN RDiv(Sum(f), I(n))
Mxy == LET f(i) == RMul(P[i][1], P[i][2]) IN RDiv(Sum(f), I(n))

\* the vertices where a simple polygon turns
Prv(i) == IF i = 1 THEN n ELSE i - 1
Corners == LET Turns(i) == Cross(Edge(Prv(i)), Edge(i)) # I(0) IN SelectSeq([i \in Ids |-> i], Turns)
Area2Of(Q) == LET RECURSIVE S(_)
                  S(i) == IF i = 0 THEN I(0) ELSE RAdd(S(i - 1), Cross(Q[i], Q[IF i = Len(Q) THEN 1 ELSE i + 1]))
              IN S(Len(Q))

-----------------------------------------------------------------------------
\* Theorems
Rev == Reverse(P)
Laws == Simple =>
    /\ Area2 # I(0)
    /\ \A k \in DOMAIN at : LET p == at[k] IN ~ OnBoundary(p) =>
            /\ Winding(p) \in {0, IF Clockwise THEN -1 ELSE 1}
            /\ (Winding(p) # 0) <=> Crossings(p) % 2 = 1
    /\ Convex => Inside(Barycenter)
    /\ Len(Corners) >= 3 /\ Area2Of([k \in DOMAIN Corners |-> P[Corners[k]]]) = Area2
    /\ n = 3 => Convex /\ Barycenter = PointBarycenter
    \* turns: the convex polygons are those which always turn on the same side
    /\ Convex <=> \/ \A i \in Ids : Cross(Edge(i), Edge(Nxt(i)))[1] >= 0
                  \/ \A i \in Ids : Cross(Edge(i), Edge(Nxt(i)))[1] <= 0

Obs == [ p |-> P, simple |-> Simple, convex |-> Convex,
         area |-> Area, clockwise |-> Clockwise,
         barycenter |-> IF Area2 = I(0) THEN Zero2 ELSE Barycenter, points |-> PointBarycenter, corners |-> IF Simple THEN Corners ELSE <<>>,
         edges |-> [i \in Ids |-> Sq(Edge(i))],
         moments |-> <<Mxx, Myy, Mxy>>,
         at |-> at,
         inside |-> [k \in DOMAIN at |-> IF OnBoundary(at[k]) THEN "boundary" ELSE IF Inside(at[k]) THEN "in" ELSE "out"] ]
Emit == PrintT(ToJson(Obs))
=============================================================================
