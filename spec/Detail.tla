-------------------------------- MODULE Detail --------------------------------
(* The drawing of a sketch, in the detail mode: what the scene of a sketch contains.

   State of Sketch.tla, and drawing: the sequence of the items of the scene. An operation adds its items: the mark of a point, its label
   and the line of the label, the construction line of the points which have one, a line, a curve.
   c.st: the widths, the sizes and colour of the style of the drawing. anchors: the names to which the points of an item are bound.     *)
EXTENDS Sketch, SequencesExt

VARIABLES drawing
dvars == <<i, c, done, pts, out, k, drawing>>

Item(kind, pts_, names, style) == [kind |-> kind, op |-> Len(done) + 1, pts |-> pts_, names |-> names, style |-> style]
Style(width, line, color) == [width |-> width, line |-> line, color |-> color]
Default == Style("1", "", "")
\* the label is shifted, its offset being downwards
Shifted(p, l) == VAdd(p, <<l[1], RNeg(l[2])>>)
HasLine == {"along", "end", "normal"}
Marks(op, p) ==
    <<Item("circle", <<p>>, <<op.name>>, Style("1", "", ""))>>
    \o (IF IsZero(op.lab) THEN <<>>
        ELSE <<Item("segment", <<p, Shifted(p, op.lab)>>, <<"", "">>, Style(c.st.label, "", "")), Item("text", <<Shifted(p, op.lab)>>, <<"">>, Default)>>)
    \o (IF op.t \in HasLine THEN <<Item("segment", <<pts[op.p], p>>, <<op.p, op.name>>, Style(c.st.construction, op.ls, op.lc))>> ELSE <<>>)
Draws(op, g) ==
    CASE op.t = "line" -> <<Item("segment", g, <<op.p, op.q>>, Style(c.st.line, op.ls, op.lc))>>
      [] op.t = "spline" -> <<Item("cubic", g, <<op.p, "", "", op.q>>, Style(c.st.line, op.ls, op.lc))>>
      [] OTHER -> Marks(op, g[1])

\* A name moved in the scene carries the points which are bound to it, and only them
Move(n, v) == /\ pts' = [pts EXCEPT ![n] = v]
              /\ drawing' = [m \in DOMAIN drawing |->
                              [drawing[m] EXCEPT !.pts = [j \in DOMAIN drawing[m].pts |-> IF drawing[m].names[j] = n THEN v ELSE drawing[m].pts[j]]]]
              /\ UNCHANGED <<done, out>>
DrawInit == CaseInit /\ drawing = <<>>
DrawNext == IF k < Len(c.ops)
            THEN CaseNext /\ drawing' = IF out'.ok THEN drawing \o Draws(c.ops[k + 1], out'.g) ELSE drawing
            ELSE /\ k - Len(c.ops) < Len(c.moves) /\ k' = k + 1 /\ UNCHANGED <<i, c>>
                 /\ LET m == c.moves[k - Len(c.ops) + 1] IN Move(m.n, m.v)
EmitDrawing == PrintT(ToJson([i |-> i, k |-> k, drawing |-> drawing, pts |-> { <<n, pts[n]>> : n \in DOMAIN pts }]))

\* each operation is drawn; the ends of an item are at the points to which they are bound
DrawLaws == /\ (k <= Len(c.ops) => Laws)
            /\ \A j \in DOMAIN done : \E m \in DOMAIN drawing : drawing[m].op = j
            /\ \A m \in DOMAIN drawing : \A j \in DOMAIN drawing[m].names : drawing[m].names[j] # "" => pts[drawing[m].names[j]] = drawing[m].pts[j]
            /\ \A a, b \in DOMAIN drawing : a < b => drawing[a].op <= drawing[b].op
\* an operation draws after the former ones, which do not change; moving a name draws nothing and leaves what is not bound to it
Grows == [][IF done # done' THEN Len(drawing) < Len(drawing') /\ SubSeq(drawing', 1, Len(drawing)) = drawing
            ELSE /\ DOMAIN drawing = DOMAIN drawing'
                 /\ \A m \in DOMAIN drawing : ToSet(drawing[m].names) = {""} => drawing[m] = drawing'[m]]_dvars
=============================================================================
