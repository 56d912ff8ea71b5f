------------------------------ MODULE XmlObjects ------------------------------
(* Objects bound to XML elements.  A class declares attributes: a name, the name of the XML attribute, a type, a default value.  Classes
   inherit from several classes, or from plain mixins which only declare attributes; the definition of a name is the one of the first class
   of the linearisation which has it.  A text is a record [s |-> string, k |-> kind, v |-> numbers]; a value is <<type, content>>.       *)
EXTENDS Rat, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VF_IN)
VARIABLES i, k, made, objs, out
vars == <<i, k, made, objs, out>>
c == Cases[i]
op == c.ops[k + 1]
None == <<"null">>

-----------------------------------------------------------------------------
\* linearisation of the classes (C3): a class, then the merge of the linearisations of its bases, in which a class comes before its bases
InTail(x, s) == \E n \in DOMAIN s : n > 1 /\ s[n] = x
RECURSIVE Merge(_)
Merge(lists) ==
    LET ls == SelectSeq(lists, LAMBDA s : s # <<>>) IN
    IF ls = <<>> THEN <<>>
    ELSE LET good == { n \in DOMAIN ls : \A m \in DOMAIN ls : ~InTail(Head(ls[n]), ls[m]) } IN
         IF good = {} THEN <<0>>      \* no linearisation
         ELSE LET x == Head(ls[CHOOSE n \in good : \A m \in good : n <= m]) IN
              <<x>> \o Merge([ n \in DOMAIN ls |-> IF Head(ls[n]) = x THEN Tail(ls[n]) ELSE ls[n] ])
RECURSIVE Linear(_)
Linear(x) == LET b == c.classes[x].bases IN <<x>> \o Merge([ n \in DOMAIN b |-> Linear(b[n]) ] \o <<b>>)
Exists(x) == 0 \notin Range(Linear(x))
Own(x) == c.classes[x].own
Has(x, name) == \E n \in DOMAIN Own(x) : Own(x)[n].name = name
Names(x) == UNION { { Own(y)[n].name : n \in DOMAIN Own(y) } : y \in Range(Linear(x)) }
\* the definition of a name in a class
Def(x, name) ==
    LET l == Linear(x) y == l[CHOOSE n \in DOMAIN l : Has(l[n], name) /\ \A m \in 1..(n - 1) : ~Has(l[m], name)]
    IN Own(y)[CHOOSE n \in DOMAIN Own(y) : Own(y)[n].name = name]

-----------------------------------------------------------------------------
\* text to value, <<"error">> when the text is not one of the type
Bad == <<"error">>
Parse(type, t) ==
    CASE type = "string" -> <<"string", t.s>>
      [] type = "bool" -> IF t.s \in {"true", "1"} THEN <<"bool", TRUE>> ELSE IF t.s \in {"false", "0"} THEN <<"bool", FALSE>> ELSE Bad
      [] type = "int" -> IF t.k = "int" THEN <<"int", t.v[1][1]>> ELSE Bad
      [] type = "float" -> IF t.k \in {"int", "dec"} THEN <<"float", t.v[1]>> ELSE Bad
      [] type = "floats" -> IF t.s = "none" THEN None ELSE IF t.k \in {"int", "dec", "list"} THEN <<"floats", t.v>> ELSE Bad
\* value to text
Write(v) ==
    CASE v[1] = "string" -> [s |-> v[2], k |-> "word", v |-> <<>>]
      [] v[1] = "bool" -> [s |-> IF v[2] THEN "true" ELSE "false", k |-> "word", v |-> <<>>]
      [] v[1] = "int" -> [s |-> ToString(v[2]), k |-> "int", v |-> <<<<v[2], 1>>>>]
      [] v[1] = "float" -> [s |-> "", k |-> "dec", v |-> <<v[2]>>]
      [] v[1] = "floats" -> [s |-> "", k |-> "list", v |-> v[2]]

-----------------------------------------------------------------------------
\* objects: [class, val: name -> value, text]
Given(o, name, pairs) == \E n \in DOMAIN pairs : pairs[n][1] = name
Of(name, pairs) == pairs[CHOOSE n \in DOMAIN pairs : pairs[n][1] = name][2]
\* a value given by name is a value of the type, or a text
FromKeyword(d, g) == IF g[1] = "null" THEN d.default ELSE IF g[1] = "text" THEN Parse(d.type, g[2]) ELSE g
New(x, pairs) == [ a \in Names(x) |-> IF Given(x, a, pairs) THEN FromKeyword(Def(x, a), Of(a, pairs)) ELSE Def(x, a).default ]
Read(x, pairs) == [ a \in Names(x) |-> LET d == Def(x, a) IN IF Given(x, d.xml, pairs) THEN Parse(d.type, Of(d.xml, pairs)) ELSE d.default ]
Good(val) == \A a \in DOMAIN val : val[a] # Bad
\* the element of an object: the XML name and the value of each attribute which is not null
Element(o) == { <<Def(o.class, a).xml, o.val[a]>> : a \in { b \in DOMAIN o.val : o.val[b] # None } }
Texts(o) == LET e == SetToSeq(Element(o)) IN [ n \in DOMAIN e |-> <<e[n][1], Write(e[n][2])>> ]
Listed(val) == LET s == SetToSeq(DOMAIN val) IN [ n \in DOMAIN s |-> <<s[n], val[s[n]]>> ]

Init == i \in DOMAIN Cases /\ k = 0 /\ made = {} /\ objs = <<>> /\ out = <<>>
Say(x) == out' = Append(out, x)
Create(o) == IF Good(o.val) THEN objs' = Append(objs, o) /\ Say("ok") ELSE objs' = objs /\ Say("refused")
Able(x) == x \in made
Step ==
    CASE op.do = "class" -> IF Exists(op.class) THEN made' = made \cup {op.class} /\ objs' = objs /\ Say("ok")
                            ELSE made' = made /\ objs' = objs /\ Say("refused")
      [] op.do = "new" -> Create([class |-> op.class, val |-> New(op.class, op.given), text |-> op.text]) /\ made' = made
      [] op.do = "read" -> Create([class |-> op.class, val |-> Read(op.class, op.given), text |-> op.text]) /\ made' = made
      [] op.do = "set" -> objs' = [objs EXCEPT ![op.obj].val[op.name] = op.value] /\ Say("ok") /\ made' = made
      [] op.do = "settext" -> objs' = [objs EXCEPT ![op.obj].text = op.text] /\ Say("ok") /\ made' = made
      \* an object written, and read by another object of its class
      [] op.do = "copy" -> LET o == objs[op.obj] IN Create([o EXCEPT !.val = Read(o.class, Texts(o))]) /\ made' = made
\* an operation on a class or on an object which does not exist is skipped
Possible == CASE op.do = "class" -> \A b \in Range(c.classes[op.class].bases) : b \in made
              [] op.do \in {"new", "read"} -> op.class \in made
              [] op.do = "set" -> /\ op.obj \in DOMAIN objs /\ op.name \in DOMAIN objs[op.obj].val
                               /\ op.value[1] \in {"null", Def(objs[op.obj].class, op.name).type}
              [] op.do \in {"copy", "settext"} -> op.obj \in DOMAIN objs
Next == /\ k < Len(c.ops) /\ k' = k + 1 /\ UNCHANGED i
        /\ IF Possible THEN Step ELSE UNCHANGED <<made, objs>> /\ Say("skip")

-----------------------------------------------------------------------------
\* a class comes before its bases, the order of the bases is kept, and the bases are linearised in the same way
Position(l, x) == CHOOSE n \in DOMAIN l : l[n] = x
Monotonic == \A x \in made : LET l == Linear(x) b == c.classes[x].bases IN
    /\ Cardinality(Range(l)) = Len(l)
    /\ \A n \in DOMAIN b : \A m \in DOMAIN Linear(b[n]) : \A q \in DOMAIN Linear(b[n]) :
           m < q => Position(l, Linear(b[n])[m]) < Position(l, Linear(b[n])[q])
    /\ \A n, m \in DOMAIN b : n < m => Position(l, b[n]) < Position(l, b[m])
\* a name is defined by a class of which no derived class, among the classes of the object, has another definition
MostDerived == \A x \in made : \A a \in Names(x) :
    \E y \in Range(Linear(x)) : /\ Has(y, a) /\ Def(y, a) = Def(x, a)
                                /\ \A z \in Range(Linear(x)) : Has(z, a) /\ z # y => y \notin Range(Linear(z))
Typed == \A n \in DOMAIN objs : \A a \in DOMAIN objs[n].val : objs[n].val[a] = None \/ objs[n].val[a][1] = Def(objs[n].class, a).type
\* what is written is read back, but a null value of an attribute which has a default
RoundTrip == \A n \in DOMAIN objs : LET o == objs[n] r == Read(o.class, Texts(o)) IN
    \A a \in DOMAIN o.val : r[a] = IF o.val[a] # None THEN o.val[a] ELSE Def(o.class, a).default
Laws == Monotonic /\ MostDerived /\ Typed /\ RoundTrip
Emit == k = Len(c.ops) => PrintT(ToJson([i |-> i, out |-> out, made |-> made,
    names |-> [ x \in DOMAIN c.classes |-> IF x \in made THEN Names(x) ELSE {} ],
    objs |-> [ n \in DOMAIN objs |-> [class |-> objs[n].class, text |-> objs[n].text, val |-> Listed(objs[n].val), xml |-> Texts(objs[n])] ]]))
=============================================================================
