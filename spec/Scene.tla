-------------------------------- MODULE Scene --------------------------------
(* A graphic scene: an ordered collection of items, placed at positions or at named coordinates, with a stacking order,
   a selection, the data of the user and a spatial index.

   State: T, the transformation <<a, b, c, d, x, y>> of the scene (never changed); coords, name -> position;
   items, in order of insertion; geo, item -> its points since its geometry was asked first (or asked after it became dirty);
   dirty, the items to index; index, item -> bounding box when it was indexed.
   Positions are integers. Queries are in tenths.                                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VF_IN)
CONSTANTS Depth
VARIABLES i, c, k, T, coords, items, geo, dirty, index, out
state == <<T, coords, items, geo, dirty, index>>
vars == <<i, c, k, T, coords, items, geo, dirty, index, out>>

Map(t, v) == <<t[1] * v[1] + t[2] * v[2] + t[5], t[3] * v[1] + t[4] * v[2] + t[6]>>
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

Ids == { items[j].k : j \in DOMAIN items }
At(n) == CHOOSE j \in DOMAIN items : items[j].k = n
Item(n) == items[At(n)]
\* A position is a vector [n: "", v: vector] or the name of a coordinate
Known(item) == \A j \in DOMAIN item.pos : item.pos[j].n = "" \/ item.pos[j].n \in DOMAIN coords
Place(p) == Map(T, IF p.n = "" THEN p.v ELSE coords[p.n])
Points(item) == [j \in DOMAIN item.pos |-> Place(item.pos[j])]
\* the geometry which an item has, when asked
HasGeometry(n) == n \in DOMAIN geo \/ Known(Item(n))
GeometryOf(n) == IF n \in DOMAIN geo THEN geo[n] ELSE Points(Item(n))
Cached(S) == [n \in DOMAIN geo \cup S |-> IF n \in DOMAIN geo THEN geo[n] ELSE Points(Item(n))]
Without(f, S) == [n \in DOMAIN f \ S |-> f[n]]

SeqMin(s, a) == LET V == { s[j][a] : j \in DOMAIN s } IN CHOOSE x \in V : \A y \in V : x <= y
SeqMax(s, a) == LET V == { s[j][a] : j \in DOMAIN s } IN CHOOSE x \in V : \A y \in V : x >= y
\* r, s: the horizontal and vertical radii
Box(item, pts) == <<SeqMin(pts, 1) - item.r, SeqMin(pts, 2) - item.s, SeqMax(pts, 1) + item.r, SeqMax(pts, 2) + item.s>>
\* q: xmin, ymin, xmax, ymax in tenths
Meet(b, q) == 10 * b[1] <= q[3] /\ q[1] <= 10 * b[3] /\ 10 * b[2] <= q[4] /\ q[2] <= 10 * b[4]
Hits(q) == { n \in DOMAIN index : Meet(index[n], q) }

\* The squared distance of a point p (tenths) to a segment, as a fraction in hundredths of units
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
SegDistance2(p, a, b) ==
    LET u == <<10 * (b[1] - a[1]), 10 * (b[2] - a[2])>> w == <<p[1] - 10 * a[1], p[2] - 10 * a[2]>> z == <<p[1] - 10 * b[1], p[2] - 10 * b[2]>>
        l2 == Dot(u, u) t == Dot(u, w) cross == (u[1] * w[2] - u[2] * w[1]) \div 10
    IN IF t <= 0 THEN <<Dot(w, w), 1>> ELSE IF t >= l2 THEN <<Dot(z, z), 1>> ELSE <<cross * cross, l2 \div 100>>
\* x < y, without large products
Less(x, y) == LET a == x[1] \div x[2] b == y[1] \div y[2]
              IN IF a = b THEN (x[1] % x[2]) * y[2] < (y[1] % y[2]) * x[2] ELSE a < b
Measurable == {"segment", "polyline", "polygon", "circle", "path", "closed"}
Curved == {"cubic", "quadratic", "ellipse"}      \* the others have no distance
\* squared distance (of the centre for a circle)
Distance2(item, pts, p) ==
    IF item.kind = "circle" THEN LET w == <<p[1] - 10 * pts[1][1], p[2] - 10 * pts[1][2]>> IN <<Dot(w, w), 1>>
    ELSE LET D == { SegDistance2(p, pts[j], pts[j + 1]) : j \in 1..(Len(pts) - 1) }
                  \cup (IF item.kind \in {"polygon", "closed"} THEN { SegDistance2(p, pts[Len(pts)], pts[1]) } ELSE {}) IN CHOOSE x \in D : \A y \in D : ~Less(y, x)
Near(item, pts, p, r) ==
    LET d == Distance2(item, pts, p)
    IN IF item.kind = "circle" THEN d[1] <= (10 * item.r + r) * (10 * item.r + r) /\ (IF 10 * item.r > r THEN d[1] >= (10 * item.r - r) * (10 * item.r - r) ELSE TRUE)
       ELSE d[1] <= r * r * d[2]
Radius == 13
Around(p) == <<p[1] - Radius, p[2] - Radius, p[1] + Radius, p[2] + Radius>>

-----------------------------------------------------------------------------
\* What an observer sees
Order == [j \in DOMAIN items |-> items[j].k]
Stacked == LET V(x) == x.vis
               Below(x, y) == x.z < y.z
           IN [j \in DOMAIN SelectSeq(items, V) |-> SortSeq([m \in DOMAIN SelectSeq(items, V) |-> <<SelectSeq(items, V)[m], m>>],
                  LAMBDA x, y : IF x[1].z = y[1].z THEN x[2] < y[2] ELSE x[1].z < y[1].z)[j][1].k]
Selected == LET S(x) == x.sel IN [j \in DOMAIN SelectSeq(items, S) |-> SelectSeq(items, S)[j].k]
Data == {"u", "v", "w"}
Owned == [d \in Data |-> LET S(x) == x.data = d IN [j \in DOMAIN SelectSeq(items, S) |-> SelectSeq(items, S)[j].k]]
See == [order |-> Order, stacked |-> Stacked, selected |-> Selected, owned |-> Owned, coords |-> [n \in DOMAIN coords |-> Map(T, coords[n])]]

-----------------------------------------------------------------------------
\* Operations. skip: the operation is meaningless there; err: it is refused
Nothing == UNCHANGED <<coords, items, geo, dirty, index>>
Result(r, x) == out' = [res |-> r, x |-> x]
Change(n, f) == items' = [items EXCEPT ![At(n)] = f] /\ UNCHANGED <<coords, geo, dirty, index>>
Execute(op) ==
    /\ UNCHANGED T
    /\ CASE op.o = "coord" -> coords' = (op.n :> op.v) @@ coords /\ UNCHANGED <<items, geo, dirty, index>> /\ Result("ok", <<>>)
         [] op.o = "uncoord" -> IF op.n \in DOMAIN coords
                                THEN coords' = Without(coords, {op.n}) /\ UNCHANGED <<items, geo, dirty, index>> /\ Result("ok", <<>>)
                                ELSE Nothing /\ Result("err", <<>>)
         [] op.o = "add" -> /\ items' = Append(items, [k |-> op.k, kind |-> op.kind, pos |-> op.pos, r |-> op.r, s |-> op.s, data |-> op.data, z |-> 0, vis |-> TRUE, sel |-> FALSE])
                            /\ dirty' = dirty \cup {op.k} /\ UNCHANGED <<coords, geo, index>> /\ Result("ok", <<>>)
         [] op.o = "unselect" -> items' = [j \in DOMAIN items |-> [items[j] EXCEPT !.sel = FALSE]] /\ UNCHANGED <<coords, geo, dirty, index>> /\ Result("ok", <<>>)
         [] op.o = "update" -> IF \A n \in dirty : HasGeometry(n)
                               THEN /\ geo' = Cached(dirty) /\ dirty' = {} /\ UNCHANGED <<coords, items>>
                                    /\ index' = [n \in DOMAIN index \cup dirty |-> IF n \in dirty THEN Box(Item(n), GeometryOf(n)) ELSE index[n]]
                                    /\ Result("ok", <<>>)
                               ELSE Nothing /\ Result("skip", <<>>)
         [] op.o = "query" -> Nothing /\ Result("ok", SetToSeq(Hits(op.q)))
         [] op.o = "at" -> LET S == Hits(Around(op.p)) N == { n \in S : Item(n).kind \in Measurable /\ Near(Item(n), GeometryOf(n), op.p, Radius) }
                               C == { n \in S : Item(n).kind \in Curved }
                           IN IF \A n \in S : HasGeometry(n)
                              THEN /\ geo' = Cached(S) /\ UNCHANGED <<coords, items, dirty, index>>
                                   /\ Result("ok", [near |-> { <<n, Distance2(Item(n), GeometryOf(n), op.p), Item(n).r>> : n \in N },
                                                    curves |-> { <<n, GeometryOf(n), Item(n).r, Item(n).s>> : n \in C }])
                              ELSE Nothing /\ Result("skip", <<>>)
         [] op.k \notin Ids -> Nothing /\ Result(IF op.o = "remove" THEN "err" ELSE "skip", <<>>)
         [] op.o = "remove" -> /\ items' = SelectSeq(items, LAMBDA x : x.k # op.k) /\ dirty' = dirty \ {op.k}
                               /\ geo' = Without(geo, {op.k}) /\ index' = Without(index, {op.k}) /\ UNCHANGED coords /\ Result("ok", <<>>)
         [] op.o = "z" -> Change(op.k, [Item(op.k) EXCEPT !.z = op.z]) /\ Result("ok", <<>>)
         [] op.o = "vis" -> Change(op.k, [Item(op.k) EXCEPT !.vis = op.b]) /\ Result("ok", <<>>)
         [] op.o = "sel" -> Change(op.k, [Item(op.k) EXCEPT !.sel = op.b]) /\ Result("ok", <<>>)
         \* a path which grows keeps the geometry it has, until it is dirty
         [] op.o = "line" -> IF Item(op.k).kind = "path" THEN Change(op.k, [Item(op.k) EXCEPT !.pos = Append(@, op.p)]) /\ Result("ok", <<>>)
                             ELSE Nothing /\ Result("skip", <<>>)
         [] op.o = "close" -> IF Item(op.k).kind = "path" /\ Len(Item(op.k).pos) > 2 /\ op.k \notin DOMAIN geo
                              THEN Change(op.k, [Item(op.k) EXCEPT !.kind = "closed"]) /\ Result("ok", <<>>)
                              ELSE Nothing /\ Result("skip", <<>>)
         [] op.o = "dirty" -> dirty' = dirty \cup {op.k} /\ geo' = Without(geo, {op.k}) /\ UNCHANGED <<coords, items, index>> /\ Result("ok", <<>>)
         [] op.o = "ask" -> IF HasGeometry(op.k) THEN geo' = Cached({op.k}) /\ UNCHANGED <<coords, items, dirty, index>> /\ Result("ok", GeometryOf(op.k))
                            ELSE Nothing /\ Result("err", <<>>)

Empty == coords = [n \in {} |-> <<>>] /\ items = <<>> /\ geo = [n \in {} |-> <<>>] /\ dirty = {} /\ index = [n \in {} |-> <<>>] /\ out = [res |-> "ok", x |-> <<>>]
CaseInit == i \in DOMAIN Cases /\ c = Cases[i] /\ T = c.t /\ k = 0 /\ Empty
CaseNext == k < Len(c.ops) /\ Execute(c.ops[k + 1]) /\ k' = k + 1 /\ UNCHANGED <<i, c>>
Emit == PrintT(ToJson([i |-> i, k |-> k, out |-> out, see |-> See]))

\* Bounded model: two items on one coordinate
V(x, y) == [n |-> "", v |-> <<x, y>>]
Alphabet == { [o |-> "coord", n |-> "A", v |-> <<0, 0>>], [o |-> "coord", n |-> "A", v |-> <<4, 2>>], [o |-> "uncoord", n |-> "A"],
              [o |-> "add", k |-> 1, kind |-> "segment", pos |-> <<[n |-> "A", v |-> <<0, 0>>], V(2, 1)>>, r |-> 0, s |-> 0, data |-> "u"],
              [o |-> "add", k |-> 2, kind |-> "circle", pos |-> <<V(4, 0)>>, r |-> 1, s |-> 1, data |-> "u"],
              [o |-> "update"], [o |-> "at", p |-> <<5, 5>>], [o |-> "query", q |-> <<25, -5, 35, 15>>], [o |-> "unselect"] }
            \cup { [o |-> o, k |-> n] : o \in {"remove", "dirty", "ask"}, n \in {1, 2} }
            \cup { [o |-> "z", k |-> n, z |-> z] : n \in {1, 2}, z \in {-1, 0} }
            \cup { [o |-> o, k |-> 1, b |-> b] : o \in {"vis", "sel"}, b \in BOOLEAN }
Idle == UNCHANGED state
ModelInit == i = 0 /\ c = <<>> /\ k = 0 /\ T = <<1, 0, 0, 1, 0, 0>> /\ Empty
ModelNext == /\ Len(c) < Depth
             /\ \E op \in Alphabet : (IF op.o = "add" THEN op.k \notin Ids /\ \A j \in DOMAIN c : IF c[j].o = "add" THEN c[j].k # op.k ELSE TRUE ELSE TRUE)
                                     /\ Execute(op) /\ c' = Append(c, op)
             /\ out'.res # "skip" /\ (IF out'.res = "ok" THEN TRUE ELSE k = 0)
             /\ k' = (IF out'.res = "err" THEN 1 ELSE 0) /\ UNCHANGED i
EmitStep == PrintT(ToJson([s |-> c, t |-> c', out |-> out', see |-> See']))
\* a state which only the last observation separates is visited once
View == <<state, Len(c)>>

-----------------------------------------------------------------------------
Laws == /\ DOMAIN index \subseteq Ids /\ dirty \subseteq Ids /\ DOMAIN geo \subseteq Ids
        /\ \A n \in Ids : n \in DOMAIN index \/ n \in dirty               \* nothing escapes the index for ever
        /\ Cardinality(Ids) = Len(items)
        /\ ToSet(Stacked) = { items[j].k : j \in { j \in DOMAIN items : items[j].vis } }
        /\ \A a, b \in DOMAIN Stacked : a < b => Item(Stacked[a]).z < Item(Stacked[b]).z \/ (Item(Stacked[a]).z = Item(Stacked[b]).z /\ At(Stacked[a]) < At(Stacked[b]))
        /\ \A n \in Ids \ dirty : n \in DOMAIN geo => index[n] = Box(Item(n), geo[n])
\* an indexed item moves only when it was declared dirty
Stable == [][\A n \in DOMAIN index \cap DOMAIN index' : index[n] # index'[n] => n \in dirty]_vars
Frozen == [][\A n \in DOMAIN geo \cap DOMAIN geo' : geo[n] = geo'[n]]_vars
=============================================================================
