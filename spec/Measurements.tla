---------------------------- MODULE Measurements ----------------------------
(* A set of measurements: names bound once to a number or to an expression of other measurements. *)
(* A measurement may refer to a measurement which is added later; its value exists as soon as     *)
(* every measurement it depends upon is present, and never changes afterwards.                    *)
EXTENDS Expr, TLC, Json, IOUtils

VARIABLES defs,   \* sequence of [n: name, e: expression], in the order of the additions
          asked,  \* names whose value was asked while it was defined
          act

vars == <<defs, asked, act>>
View == <<defs, asked>>

Names(D) == { D[i].n : i \in DOMAIN D }
Def(D, n) == D[CHOOSE i \in DOMAIN D : D[i].n = n].e

\* Value of a name; Path is the set of names being evaluated (a name which depends on itself has no value)
RECURSIVE ValueOf(_, _, _)
ValueOf(D, n, Path) ==
    IF n \notin Names(D) \/ n \in Path THEN Undefined
    ELSE LET e == Def(D, n)
             refs == Refs(e)
             env == [ref |-> [r \in refs |-> ValueOf(D, r, Path \cup {n})], point |-> NoPoints, cur |-> Undefined]
         IN Value(e, env)

Val(D, n) == ValueOf(D, n, {})

Error == "error"

-----------------------------------------------------------------------------
\* Exhaustive model: three names and a pool of definitions
Num(n, d) == [k |-> "num", v |-> R(n, d)]
Ref(n) == [k |-> "ref", n |-> n]
Add(a, b) == [k |-> "add", a |-> a, b |-> b]
Mul(a, b) == [k |-> "mul", a |-> a, b |-> b]
Div(a, b) == [k |-> "div", a |-> a, b |-> b]
Sub(a, b) == [k |-> "sub", a |-> a, b |-> b]

CONSTANTS Depth      \* how many measurements may be added

Pool(n) == CASE n = "waist" -> { Num(7, 2), Add(Ref("hip"), Num(1, 4)), Mul(Num(2, 1), Ref("bust_arc")) }
             [] n = "hip"   -> { Num(90, 1), Div(Ref("bust_arc"), Num(4, 1)), Add(Ref("waist"), Num(3, 1)) }
             [] n = "bust_arc" -> { Num(-3, 1), Sub(Ref("waist"), Num(1, 8)), Add(Ref("waist"), Ref("hip")) }
AllNames == {"waist", "hip", "bust_arc"}

Init == defs = <<>> /\ asked = {} /\ act = <<"init">>

AddNewAny(n, e) ==
                /\ n \notin Names(defs)
                /\ defs' = Append(defs, [n |-> n, e |-> e])
                /\ UNCHANGED asked
                /\ act' = <<"add", n, e, "ok">>

AddNew(n, e) == Len(defs) < Depth /\ AddNewAny(n, e)

AddDuplicate(n, e) == /\ n \in Names(defs)
                      /\ UNCHANGED <<defs, asked>>
                      /\ act' = <<"add", n, e, Error>>

AddInvalid(e) == /\ UNCHANGED <<defs, asked>>
                 /\ act' = <<"add", "a-b", e, Error>>

\* A name which refers to an undefined measurement may be asked: an error, and nothing is remembered
Ask(n) == /\ n \in Names(defs)
          /\ UNCHANGED defs
          /\ LET v == Val(defs, n)
             IN /\ act' = <<"ask", n, IF v = Undefined THEN Error ELSE v>>
                /\ asked' = IF v = Undefined THEN asked ELSE asked \cup {n}

Next == \/ \E n \in AllNames : \E e \in Pool(n) : AddNew(n, e)
        \/ \E n \in AllNames : AddDuplicate(n, Num(1, 1))
        \/ AddInvalid(Num(1, 1))
        \/ \E n \in AllNames : Ask(n)

\* Theorems
UniqueNames == \A i, j \in DOMAIN defs : defs[i].n = defs[j].n => i = j
\* a value only depends on the definitions, not on their order
OrderFree == LET rev == [i \in DOMAIN defs |-> defs[Len(defs) + 1 - i]]
             IN \A n \in Names(defs) : Val(defs, n) = Val(rev, n)
AskedDefined == \A n \in asked : Val(defs, n) # Undefined
Stable == [][\A n \in Names(defs) : Val(defs, n) # Undefined => Val(defs', n) = Val(defs, n)]_vars

EmitStep == PrintT(ToJson([s |-> <<defs, asked>>, a |-> act', t |-> <<defs', asked'>>]))

-----------------------------------------------------------------------------
\* Larger sets which come from the harness: TLC gives the values
Sets == ndJsonDeserialize(IOEnv.VF_IN)
VARIABLE i
CInit == i \in DOMAIN Sets /\ defs = Sets[i] /\ asked = {} /\ act = <<"init">>
CNext == FALSE /\ UNCHANGED <<defs, asked, act, i>>
\* for each prefix of the additions, the value of every name
EmitSet == PrintT(ToJson([i |-> i, v |-> [k \in DOMAIN defs |->
                            LET D == SubSeq(defs, 1, k) IN [j \in 1..k |-> Val(D, D[j].n)]]]))
MInit == Init /\ i = 0
MNext == Next /\ UNCHANGED i
=============================================================================
