------------------------------- MODULE ValFile -------------------------------
(* The Valentina pattern files: what is written for a pattern, what is read from a document.

   A pattern is a sequence of pieces, a piece a name and a sequence of operations
     [t, id, name, refs: names of the points used, texts: expressions, label: the two offsets as texts, style, color]
   name is "" for a line or a spline, color "" and style "" when undefined.
   A document is a sequence of pieces, a piece a name and a sequence of elements [tag, a: attribute -> text].

   Reading goes element by element (state: the operations read, the names of their ids); an element which is not supported
   is skipped, a reference to an unknown id stops the reading.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VF_IN)

\* The format: XML type of each operation, attributes of its points and of its expressions, line properties
Format == [
    along     |-> [tag |-> "point", type |-> "alongLine", points |-> <<"firstPoint", "secondPoint">>, texts |-> <<"length">>, pen |-> <<"typeLine", "lineColor">>],
    end       |-> [tag |-> "point", type |-> "endLine", points |-> <<"basePoint">>, texts |-> <<"angle", "length">>, pen |-> <<"typeLine", "lineColor">>],
    normal    |-> [tag |-> "point", type |-> "normal", points |-> <<"firstPoint", "secondPoint">>, texts |-> <<"angle", "length">>, pen |-> <<"typeLine", "lineColor">>],
    intersect |-> [tag |-> "point", type |-> "lineIntersect", points |-> <<"p1Line1", "p2Line1", "p1Line2", "p2Line2">>, texts |-> <<>>, pen |-> <<"", "">>],
    contact   |-> [tag |-> "point", type |-> "pointOfContact", points |-> <<"firstPoint", "secondPoint", "center">>, texts |-> <<"radius">>, pen |-> <<"", "">>],
    poi       |-> [tag |-> "point", type |-> "pointOfIntersection", points |-> <<"firstPoint", "secondPoint">>, texts |-> <<>>, pen |-> <<"", "">>],
    single    |-> [tag |-> "point", type |-> "single", points |-> <<>>, texts |-> <<"x", "y">>, pen |-> <<"", "">>],
    line      |-> [tag |-> "line", type |-> "", points |-> <<"firstPoint", "secondPoint">>, texts |-> <<>>, pen |-> <<"typeLine", "lineColor">>],
    spline    |-> [tag |-> "spline", type |-> "simpleInteractive", points |-> <<"point1", "point4">>,
                   texts |-> <<"angle1", "length1", "angle2", "length2">>, pen |-> <<"", "color">>] ]
Kinds == DOMAIN Format
DefaultStyle == "hair"      \* the style of a spline, which the format does not carry

\* Pairs (attribute, value) as a function, pairs without attribute or without value are left out
RECURSIVE Attributes(_)
Attributes(s) == IF s = <<>> THEN <<>>
                 ELSE (IF "" \in {s[1][1], s[1][2]} THEN <<>> ELSE s[1][1] :> s[1][2]) @@ Attributes(Tail(s))
Get(a, n) == IF n \in DOMAIN a THEN a[n] ELSE ""

-----------------------------------------------------------------------------
\* Writing
IdOf(ops, n) == LET j == CHOOSE j \in DOMAIN ops : ops[j].name = n IN ToString(ops[j].id)
WriteOp(ops, op) ==
    LET f == Format[op.t]
    IN [tag |-> f.tag,
        a |-> Attributes(<<<<"id", ToString(op.id)>>, <<"type", f.type>>, <<"name", op.name>>, <<f.pen[1], op.style>>, <<f.pen[2], op.color>>,
                           <<IF op.name = "" THEN "" ELSE "mx", op.label[1]>>, <<IF op.name = "" THEN "" ELSE "my", op.label[2]>> >>
                         \o [j \in DOMAIN f.points |-> <<f.points[j], IdOf(ops, op.refs[j])>>]
                         \o [j \in DOMAIN f.texts |-> <<f.texts[j], op.texts[j]>>])]
WriteOps(ops) == [j \in DOMAIN ops |-> WriteOp(ops, ops[j])]
Write(pieces) == [j \in DOMAIN pieces |-> [name |-> pieces[j].name, elements |-> WriteOps(pieces[j].ops)]]

-----------------------------------------------------------------------------
\* Reading, as a state machine over the elements of the pieces
VARIABLES i, doc, at, result, status
vars == <<i, doc, at, result, status>>

Supported(e) == \E t \in Kinds : Format[t].tag = e.tag /\ Format[t].type = Get(e.a, "type")
KindOf(e) == CHOOSE t \in Kinds : Format[t].tag = e.tag /\ Format[t].type = Get(e.a, "type")
Ids(ops) == { ToString(ops[j].id) : j \in { j \in DOMAIN ops : ops[j].name # "" } }
NameOf(ops, id) == (CHOOSE j \in DOMAIN ops : ToString(ops[j].id) = id /\ ops[j].name # "")
NatOf(s) == CHOOSE n \in 0..4000 : ToString(n) = s
ReadOp(ops, e) ==
    LET t == KindOf(e) f == Format[t]
    IN [t |-> t, id |-> NatOf(e.a["id"]), name |-> Get(e.a, "name"),
        refs |-> [j \in DOMAIN f.points |-> ops[NameOf(ops, e.a[f.points[j]])].name],
        texts |-> [j \in DOMAIN f.texts |-> e.a[f.texts[j]]],
        label |-> <<Get(e.a, "mx"), Get(e.a, "my")>>,
        style |-> IF t = "spline" THEN DefaultStyle ELSE Get(e.a, f.pen[1]),
        color |-> Get(e.a, f.pen[2])]
References(e) == LET f == Format[KindOf(e)] IN { e.a[f.points[j]] : j \in DOMAIN f.points }

Start == at = <<1, 1>> /\ result = [j \in DOMAIN doc |-> [name |-> doc[j].name, ops |-> <<>>]] /\ status = "reading"
ReadElement ==
    /\ status = "reading"
    /\ UNCHANGED <<i, doc>>
    /\ LET p == at[1] n == at[2]
       IN IF p > Len(doc) THEN status' = "read" /\ UNCHANGED <<at, result>>
          ELSE IF n > Len(doc[p].elements) THEN at' = <<p + 1, 1>> /\ UNCHANGED <<result, status>>
          ELSE LET e == doc[p].elements[n] ops == result[p].ops
               IN IF ~Supported(e) THEN at' = <<p, n + 1>> /\ UNCHANGED <<result, status>>
                  ELSE IF ~(References(e) \subseteq Ids(ops)) THEN status' = "refused" /\ UNCHANGED <<at, result>>
                  ELSE at' = <<p, n + 1>> /\ result' = [result EXCEPT ![p].ops = Append(@, ReadOp(ops, e))] /\ UNCHANGED status

-----------------------------------------------------------------------------
\* Cases of the harness: a pattern to write (q.pieces) or a document to read (q.doc)
CaseInit == i \in DOMAIN Cases /\ doc = (IF Cases[i].kind = "write" THEN Write(Cases[i].pieces) ELSE Cases[i].doc) /\ Start
CaseNext == ReadElement
Emit == IF status # "reading" /\ i > 0 THEN PrintT(ToJson([i |-> i, doc |-> doc, result |-> result, status |-> status])) ELSE TRUE

\* What is written is read
RoundTrip == status # "reading" /\ (IF i > 0 THEN Cases[i].kind = "write" ELSE FALSE) => status = "read" /\ result = Cases[i].pieces
\* and what is read, once written, is the document without the elements which are skipped
Kept(elements) == LET Sel(e) == Supported(e) IN SelectSeq(elements, Sel)
Rewritten == status = "read" => Write(result) = [j \in DOMAIN doc |-> [name |-> doc[j].name, elements |-> Kept(doc[j].elements)]]
\* pieces do not see each other, ids are those of the document
Scoped == \A p \in DOMAIN result : \A j \in DOMAIN result[p].ops : \A r \in DOMAIN result[p].ops[j].refs :
              \E m \in 1..(j - 1) : result[p].ops[m].name = result[p].ops[j].refs[r]
Laws == RoundTrip /\ Rewritten /\ Scoped

\* Bounded model: the documents of one or two pieces, of two points and up to two elements of any kind and reference
Ref == {"1", "2", "3"}
Element(id) ==
    LET make(t, r, s) == LET f == Format[t]
                         IN [tag |-> f.tag,
                             a |-> Attributes(<<<<"id", id>>, <<"type", f.type>>, <<IF f.tag = "point" THEN "name" ELSE "", "P" \o id>>,
                                                <<f.pen[1], s>>, <<f.pen[2], "#0000ff">>, <<IF f.tag = "point" THEN "mx" ELSE "", "1.5">>,
                                                <<IF f.tag = "point" THEN "my" ELSE "", "0.0">> >>
                                              \o [j \in DOMAIN f.points |-> <<f.points[j], IF j % 2 = 1 THEN r[1] ELSE r[2]>>]
                                              \o [j \in DOMAIN f.texts |-> <<f.texts[j], f.texts[j]>>])]
    IN { make(t, r, s) : t \in Kinds, r \in Ref \X Ref, s \in {"hair", "none"} }
       \cup { [tag |-> "arc", a |-> ("id" :> id) @@ ("type" :> "simple")], [tag |-> "point", a |-> ("id" :> id) @@ ("type" :> "trueDarts")] }
P1 == [tag |-> "point", a |-> ("id" :> "1") @@ ("type" :> "single") @@ ("name" :> "A") @@ ("x" :> "0") @@ ("y" :> "0") @@ ("mx" :> "0.0") @@ ("my" :> "0.0")]
ModelInit == /\ i = 0
             /\ \E e \in Element("2"), f \in Element("3"), split \in BOOLEAN :
                   doc = IF split THEN <<[name |-> "u", elements |-> <<P1, e>>], [name |-> "v", elements |-> <<f>>]>>
                         ELSE <<[name |-> "u", elements |-> <<P1, e, f>>]>>
             /\ Start
EmitModel == IF status # "reading" THEN PrintT(ToJson([doc |-> doc, result |-> result, status |-> status])) ELSE TRUE
=============================================================================
