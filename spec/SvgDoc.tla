------------------------------- MODULE SvgDoc -------------------------------
(* An SVG document is read element after element: the groups stack the presentation attributes, which the items inherit,
   and compose the transforms.

   Case: events, one of
     ["open", id, attributes, style, transform]   the start of a group
     ["close"]
     ["item", id, attributes, style, transform]   a graphic item
     ["skip"]                                      anything else: title, comment, definition...
   attributes and style are lists of <<name, value>>, a transform is a list of maps, or none at all.
   view: the view box.  k is the number of events which were read.                                                                     *)
EXTENDS Affine, TLC, Json, IOUtils
VARIABLES c, i, k, stack, out
dvars == <<c, i, k, stack, out>>
Cases == ndJsonDeserialize(IOEnv.VF_IN)

Names == {"fill", "stroke", "stroke_width", "stroke_linecap", "stroke_linejoin", "stroke_miterlimit", "stroke_dasharray",
          "fill_opacity", "stroke_opacity", "fill_rule", "font_size", "font_family", "visibility",
          "font_size_adjust"}
Top == [values |-> [n \in Names |-> "default"], map |-> Id]
DocInit == i \in DOMAIN Cases /\ c = Cases[i] /\ k = 0 /\ stack = <<Top>> /\ out = <<>>

\* the last value given, but inherit
RECURSIVE Given(_, _)
Given(values, s) == IF s = <<>> THEN values
                    ELSE Given(IF Head(s)[2] = "inherit" THEN values ELSE [values EXCEPT ![Head(s)[1]] = Head(s)[2]], Tail(s))
RECURSIVE ComposeAll(_, _)
ComposeAll(f, s) == IF s = <<>> THEN f ELSE ComposeAll(Compose(f, [m |-> Head(s)[1], t |-> Head(s)[2]]), Tail(s))
\* the style wins over the attributes
Merge(state, e) == [values |-> Given(Given(state.values, e[3]), e[4]), map |-> ComposeAll(state.map, e[5])]

State == stack[Len(stack)]
Open(e) == /\ stack' = Append(stack, Merge(State, e))
           /\ out' = Append(out, [event |-> "group", id |-> e[2]])
Close == stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED out
Item(e) == /\ out' = Append(out, [event |-> "item", id |-> e[2], state |-> Merge(State, e)])
           /\ UNCHANGED stack
DocNext == /\ k < Len(c.events) /\ k' = k + 1
           /\ LET e == c.events[k']
              IN CASE e[1] = "open" -> Open(e)
                   [] e[1] = "close" -> Close
                   [] e[1] = "item" -> Item(e)
                   [] e[1] = "skip" -> UNCHANGED <<stack, out>>
           /\ UNCHANGED <<c, i>>

-----------------------------------------------------------------------------
\* x, y, width, height -> interval
ViewBox == IF c.view = <<>> THEN <<>> ELSE <<c.view[1], c.view[2], RAdd(c.view[1], c.view[3]), RAdd(c.view[2], c.view[4])>>
Emit == k = Len(c.events) => PrintT(ToJson([i |-> i, out |-> out, box |-> ViewBox]))

\* the groups are closed: the state is the initial one
Balanced == k = Len(c.events) => stack = <<Top>>
\* direct definition: the state of an item is the merge of its ancestors
RECURSIVE Ancestors(_, _)
Ancestors(n, depth) ==
    IF n = 0 THEN <<>>
    ELSE LET e == c.events[n]
         IN CASE e[1] = "close" -> Ancestors(n - 1, depth + 1)
              [] e[1] = "open" -> IF depth = 0 THEN Append(Ancestors(n - 1, 0), e) ELSE Ancestors(n - 1, depth - 1)
              [] OTHER -> Ancestors(n - 1, depth)
RECURSIVE MergeAll(_, _)
MergeAll(s, es) == IF es = <<>> THEN s ELSE MergeAll(Merge(s, Head(es)), Tail(es))
Inheritance == State = MergeAll(Top, Ancestors(k, 0))
\* what was given is never changed
Frozen == [][SubSeq(out', 1, Len(out)) = out]_dvars
=============================================================================
