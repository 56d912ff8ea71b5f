-------------------------------- MODULE Hull --------------------------------
(* Convex hull of a finite set of points: its corners, in counterclockwise order from the lowest,
   leftmost one.                                                                                 *)
EXTENDS Vec, TLC, Json, IOUtils
VARIABLES S, i
vars == <<S, i>>
Cases == ndJsonDeserialize(IOEnv.VF_IN)
Range(s) == { s[k] : k \in DOMAIN s }
CaseInit == i \in DOMAIN Cases /\ S = Range(Cases[i])
Next == FALSE /\ UNCHANGED vars

InTriangle(p, a, b, c) ==
    \/ OnSegment(a, b, p) \/ OnSegment(b, c, p) \/ OnSegment(a, c, p)
    \/ /\ ~ Aligned(a, b, c)
       /\ \/ ~ Right(a, b, p) /\ ~ Right(b, c, p) /\ ~ Right(c, a, p)
          \/ ~ Left(a, b, p) /\ ~ Left(b, c, p) /\ ~ Left(c, a, p)
\* a corner is not a convex combination of other points (Caratheodory: of at most three of them)
ByCombination == { p \in S : ~ \E a, b, c \in S \ {p} : InTriangle(p, a, b, c) }
\* a line through the corner and another point has all the points on one side, and the aligned points after the corner
Corners == { p \in S : \/ S = {p}
                      \/ \E q \in S \ {p} : \A r \in S \ {p, q} :
                            \/ Left(p, q, r)
                            \/ Aligned(p, q, r) /\ Dot(VSub(q, p), VSub(r, p))[1] > 0 }
Lower(p, q) == RLt(p[2], q[2]) \/ (p[2] = q[2] /\ RLe(p[1], q[1]))
First == CHOOSE p \in S : \A q \in S : Lower(p, q)
\* the next corner keeps all the points on its left
Succ(p, C) == CHOOSE q \in C \ {p} : \A r \in C : ~ Right(p, q, r)
RECURSIVE Walk(_, _)
Walk(s, C) == IF Cardinality(C) = Len(s) THEN s ELSE Walk(Append(s, Succ(s[Len(s)], C)), C)
Hull == LET C == Corners IN Walk(<<First>>, C)

Laws == LET h == Hull
            m == Len(h)
            C == Corners
        IN /\ First \in C
           /\ Range(h) = C
           /\ Cardinality(S) <= 5 => C = ByCombination
           /\ m >= 3 => /\ \A k \in 1 .. m : \A p \in S : ~ Right(h[k], h[(k % m) + 1], p)
                        /\ \A k \in 1 .. m : Left(h[k], h[(k % m) + 1], h[((k + 1) % m) + 1])
           /\ m = 2 => \A p \in S : OnSegment(h[1], h[2], p)
Emit == PrintT(ToJson([i |-> i, hull |-> Hull]))
=============================================================================
