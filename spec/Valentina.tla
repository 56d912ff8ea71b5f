----------------------------- MODULE Valentina -----------------------------
(* A Valentina measurement file: a list of elements <m name value>.  A custom measurement is      *)
(* written @name in the file, and belongs to the measurement set under the name C_name.           *)
(* Reading a file is the sequence of the additions of its elements; the first refused element     *)
(* refuses the file.                                                                             *)
EXTENDS Measurements

Files == Sets                     \* sequences of [b: base name, c: custom?, e: expression]

PyName(b, c) == IF c THEN "C_" \o b ELSE b

RECURSIVE Rename(_)
Rename(e) == CASE e.k = "ref" -> [k |-> "ref", n |-> PyName(e.n, e.c)]
               [] e.k \in {"add", "sub", "mul", "div"} -> [k |-> e.k, a |-> Rename(e.a), b |-> Rename(e.b)]
               [] e.k \in {"neg", "sq"} -> [k |-> e.k, a |-> Rename(e.a)]
               [] OTHER -> e

VARIABLES pos, status
fvars == <<defs, asked, act, i, pos, status>>

FInit == /\ i \in DOMAIN Files
         /\ pos = 1 /\ status = "reading"
         /\ defs = <<>> /\ asked = {} /\ act = <<"init">>

Element == Files[i][pos]

ReadElement == /\ status = "reading" /\ pos <= Len(Files[i])
               /\ AddNewAny(PyName(Element.b, Element.c), Rename(Element.e))
               /\ pos' = pos + 1
               /\ UNCHANGED <<i, status>>

RefuseElement == /\ status = "reading" /\ pos <= Len(Files[i])
                 /\ AddDuplicate(PyName(Element.b, Element.c), Rename(Element.e))
                 /\ status' = "refused"
                 /\ UNCHANGED <<i, pos>>

EndOfFile == /\ status = "reading" /\ pos > Len(Files[i])
             /\ status' = "done"
             /\ UNCHANGED <<defs, asked, act, i, pos>>

FNext == ReadElement \/ RefuseElement \/ EndOfFile

\* every element accepted so far is retrievable under its Valentina name and under its plain name
Retrievable == \A k \in 1 .. pos - 1 : PyName(Files[i][k].b, Files[i][k].c) \in Names(defs)
Ordered == Len(defs) = pos - 1

EmitFile == status \in {"done", "refused"} =>
    PrintT(ToJson([i |-> i, status |-> status, names |-> [j \in DOMAIN defs |-> defs[j].n],
                   v |-> [j \in DOMAIN defs |-> Val(defs, defs[j].n)]]))
=============================================================================
