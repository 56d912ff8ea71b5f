------------------------------- MODULE Chain -------------------------------
(* From the files of the measurements and of a pattern to the drawing of each piece: the measurements give the points, the points give the
   scene of the piece, and the scene is drawn to a file.

   State of Detail.tla, and page: for each format, the marks of the file. A piece is drawn as soon as it is complete. Everything on a page
   is a function of the operations and of the current measurements: taking other measurements is another behaviour of the same pattern. *)
EXTENDS Detail

VARIABLES page
cvars == <<i, c, done, pts, out, k, drawing, page>>
Formats == {"svg", "pdf", "dxf", "tex"}
\* millimetres of the page for a unit of the pattern
Scale(b) == CASE b \in {"svg", "dxf"} -> I(10) [] b = "pdf" -> I(7) [] b = "tex" -> I(1)
Down(b) == b = "svg"

\* the geometry of a piece: its points, its lines, its curves
Curve(m) == m.kind = "circle" \/ done[m.op].t \in {"line", "spline"}
Places == UNION { ToSet(drawing[m].pts) : m \in { m \in DOMAIN drawing : Curve(drawing[m]) } }
Least(a) == LET S == { p[a] : p \in Places } IN CHOOSE x \in S : \A y \in S : RLe(x, y)
Most(a) == LET S == { p[a] : p \in Places } IN CHOOSE x \in S : \A y \in S : RLe(y, x)
\* The point of the piece at the origin of the page
Origin(b) == CASE b = "svg" -> <<Least(1), Most(2)>>
               [] b = "pdf" -> <<RSub(Least(1), R(10, 7)), RSub(Least(2), R(10, 7))>>      \* a margin of 10 mm
               [] OTHER -> Zero2
OnPage(b, o, p) == LET q == VScale(Scale(b), VSub(p, o)) IN IF Down(b) THEN Conj(q) ELSE q
\* a CAD drawing has no dots
Drawn(b) == LET Keeps(m) == b # "dxf" \/ m.kind # "circle" IN SelectSeq(drawing, Keeps)
Page(b) == LET D == Drawn(b) o == Origin(b) IN [m \in DOMAIN D |-> [D[m] EXCEPT !.pts = [j \in DOMAIN @ |-> OnPage(b, o, @[j])]]]

Blank == [b \in Formats |-> <<>>]
ChainInit == DrawInit /\ page = Blank
ChainNext == \/ k < Len(c.ops) /\ DrawNext /\ page' = Blank
             \/ k = Len(c.ops) /\ page = Blank /\ page' = [b \in Formats |-> Page(b)] /\ UNCHANGED dvars
EmitPages == page # Blank => PrintT(ToJson([i |-> i, page |-> page, box |-> <<Least(1), Least(2), Most(1), Most(2)>>]))

\* The pages are figures similar to the piece, all in the same proportions; a piece is whole on its page
Piece(b) == Drawn(b)
Similar == page # Blank => \A b \in Formats :
    /\ Len(page[b]) = Len(Piece(b))
    /\ LET D == Piece(b) P == page[b]
       IN \A m \in DOMAIN P : \A j \in DOMAIN P[m].pts :
             Sq(VSub(P[m].pts[j], P[1].pts[1])) = RMul(RSq(Scale(b)), Sq(VSub(D[m].pts[j], D[1].pts[1])))
Whole == page # Blank =>
    \A m \in DOMAIN page["svg"] : Curve(page["svg"][m]) =>
        \A j \in DOMAIN page["svg"][m].pts : LET p == page["svg"][m].pts[j]
            IN /\ p[1][1] >= 0 /\ p[2][1] >= 0
               /\ RLe(p[1], RMul(I(10), RSub(Most(1), Least(1)))) /\ RLe(p[2], RMul(I(10), RSub(Most(2), Least(2))))
\* the same point is at the same place on a page whatever it is a mark of
Joined == page # Blank => \A b \in Formats : \A m, n \in DOMAIN page[b] :
    \A j \in DOMAIN page[b][m].names : \A l \in DOMAIN page[b][n].names :
        page[b][m].names[j] # "" /\ page[b][m].names[j] = page[b][n].names[l] => page[b][m].pts[j] = page[b][n].pts[l]
Once == [][page # Blank => page' = page]_cvars
=============================================================================
