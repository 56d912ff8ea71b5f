------------------------------- MODULE Styles -------------------------------
(* Styles, colours and typography units: objects which are made, copied and changed.

   State: objs, name -> [kind, f], where kind is "path", "bezier", "color" or "unit" and f gives the value of each field;
   db, a colour database of the user: a sequence of <<name, colour>>.
   A colour is a triple of rational numbers in [0, 1] (red, green, blue).
   Values given by the user are [t |-> type, v |-> value].                                              *)
EXTENDS Rat, FiniteSets, SequencesExt, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VF_IN)
CONSTANTS Depth
VARIABLES i, c, k, objs, db, out
state == <<objs, db>>
vars == <<i, c, k, objs, db, out>>

Nothing == <<0, 1>>
One == <<1, 1>>
Half == <<1, 2>>
Bad == [t |-> "bad", v |-> ""]
None == [t |-> "none", v |-> ""]
Rgb(x) == [t |-> "rgb", v |-> x]

-----------------------------------------------------------------------------
\* Colours
Channels == <<"red", "green", "blue">>
Byte(n) == R(n, 255)
Bytes(x) == [j \in 1..3 |-> Byte(x[j])]
Within(x) == RLe(Nothing, x) /\ RLe(x, One)
\* an integer is a byte, a float is a fraction
Component(x) == IF x.t = "int" THEN (IF x.v >= 0 /\ x.v <= 255 THEN [ok |-> TRUE, v |-> Byte(x.v)] ELSE [ok |-> FALSE, v |-> Nothing])
                ELSE IF x.t = "float" THEN (IF Within(x.v) THEN [ok |-> TRUE, v |-> R(x.v[1], x.v[2])] ELSE [ok |-> FALSE, v |-> Nothing])
                ELSE [ok |-> FALSE, v |-> Nothing]
\* the nearest bytes (two at half way)
Up(x) == (510 * x[1] + x[2]) \div (2 * x[2])
Down(x) == -((x[2] - 510 * x[1]) \div (2 * x[2]))
Ints(x) == [j \in 1..3 |-> <<Down(x[j]), Up(x[j])>>]
Certain(x) == \A j \in 1..3 : Down(x[j]) = Up(x[j])
Rounded(x) == Bytes([j \in 1..3 |-> Up(x[j])])

Largest(x) == RMax(x[1], RMax(x[2], x[3]))
Smallest(x) == RMin(x[1], RMin(x[2], x[3]))
Chroma(x) == RSub(Largest(x), Smallest(x))
Floor1(x) == R(x[1] % x[2], x[2])
Hue(x) == LET d == Chroma(x) m == Largest(x)
          IN IF d = Nothing THEN Nothing
             ELSE Floor1(RDiv(IF x[1] = m THEN RDiv(RSub(x[2], x[3]), d)
                              ELSE IF x[2] = m THEN RAdd(I(2), RDiv(RSub(x[3], x[1]), d))
                              ELSE RAdd(I(4), RDiv(RSub(x[1], x[2]), d)), I(6)))
Light(x) == RMul(Half, RAdd(Largest(x), Smallest(x)))
LightSaturation(x) == IF Chroma(x) = Nothing THEN Nothing
                      ELSE RDiv(Chroma(x), IF RLe(Light(x), Half) THEN RAdd(Largest(x), Smallest(x)) ELSE RSub(I(2), RAdd(Largest(x), Smallest(x))))
ValueSaturation(x) == IF Chroma(x) = Nothing THEN Nothing ELSE RDiv(Chroma(x), Largest(x))
Hls(x) == <<Hue(x), Light(x), LightSaturation(x)>>
Hsv(x) == <<Hue(x), ValueSaturation(x), Largest(x)>>
\* the colour of a hue, a smallest and a largest component: the hue goes round a hexagon
Sector(hue, lo, hi) ==
    LET h == RMul(I(6), Floor1(hue))
        q == h[1] \div h[2]
        f == RSub(h, I(q))
        rise == RAdd(lo, RMul(f, RSub(hi, lo)))
        fall == RSub(hi, RMul(f, RSub(hi, lo)))
    IN CASE q = 0 -> <<hi, rise, lo>> [] q = 1 -> <<fall, hi, lo>> [] q = 2 -> <<lo, hi, rise>>
         [] q = 3 -> <<lo, fall, hi>> [] q = 4 -> <<rise, lo, hi>> [] OTHER -> <<hi, lo, fall>>
FromHls(h, l, s) == LET hi == IF RLe(l, Half) THEN RMul(l, RAdd(One, s)) ELSE RSub(RAdd(l, s), RMul(l, s)) IN Sector(h, RSub(RMul(I(2), l), hi), hi)
FromHsv(h, s, v) == Sector(h, RMul(v, RSub(One, s)), v)

-----------------------------------------------------------------------------
\* Units, in points
Factor(u) == CASE u = "inch" -> I(72) [] u = "mm" -> R(360, 127) [] OTHER -> I(1)
Converted(x, u) == IF x.u = u THEN x ELSE [u |-> u, v |-> RDiv(RMul(x.v, Factor(x.u)), Factor(u))]

-----------------------------------------------------------------------------
\* Styles
Enums == [stroke_style |-> {"NoPen", "SolidLine", "DashLine", "DotLine", "DashDotLine", "DashDotDotLine"},
          cap_style |-> {"FlatCap", "SquareCap", "RoundCap"},
          join_style |-> {"MiterJoin", "BevelJoin", "RoundJoin", "SvgMiterJoin"}]
Colored == {"stroke_color", "fill_color", "control_color"}
Alphas == {"stroke_alpha", "fill_alpha"}
Fields(kind) == {"stroke_style", "line_width", "stroke_color", "stroke_alpha", "fill_color", "fill_alpha", "cap_style", "join_style"}
                \cup (IF kind = "bezier" THEN {"show_control", "control_color"} ELSE {})
Default(f) == CASE f = "stroke_style" -> [t |-> "enum", v |-> "SolidLine"] [] f = "cap_style" -> [t |-> "enum", v |-> "SquareCap"]
                [] f = "join_style" -> [t |-> "enum", v |-> "BevelJoin"] [] f = "line_width" -> [t |-> "num", v |-> One]
                [] f \in Alphas -> [t |-> "num", v |-> One] [] f = "stroke_color" -> Rgb(<<Nothing, Nothing, Nothing>>)
                [] f = "show_control" -> [t |-> "bool", v |-> FALSE] [] OTHER -> None
Named == [black |-> <<0, 0, 0>>, white |-> <<255, 255, 255>>, red |-> <<255, 0, 0>>, blue |-> <<0, 0, 255>>, aliceblue |-> <<240, 248, 255>>, darkslategray |-> <<47, 79, 79>>]
\* a colour, its '#rrggbb' string, its name, or nothing
Ensured(x) == CASE x.t = "none" -> None [] x.t = "hex" -> Rgb(Bytes(x.v)) [] x.t = "obj" /\ x.v \in DOMAIN objs -> Rgb(objs[x.v].f)
                [] x.t = "name" /\ x.v \in DOMAIN Named -> Rgb(Bytes(Named[x.v])) [] OTHER -> Bad
\* the value of a field, or Bad
Value(f, x) == CASE f \in DOMAIN Enums -> IF x.t = "enum" /\ x.v \in Enums[f] THEN x ELSE Bad
                 [] f \in Colored -> Ensured(x)
                 [] f \in Alphas -> IF x.t \in {"num", "numstr"} THEN [t |-> "num", v |-> x.v] ELSE Bad
                 [] f = "line_width" -> IF x.t = "unit" THEN (IF x.v \in DOMAIN objs THEN [t |-> "num", v |-> objs[x.v].f.v] ELSE Bad) ELSE x
                 [] OTHER -> x

-----------------------------------------------------------------------------
\* What an observer sees of an object
Shown(o) == CASE o.kind = "color" -> [kind |-> "color", rgb |-> o.f, ints |-> Ints(o.f), name |-> o.name, hls |-> Hls(o.f), hsv |-> Hsv(o.f)]
              [] OTHER -> o
See == [objs |-> [n \in DOMAIN objs |-> Shown(objs[n])], db |-> [j \in DOMAIN db |-> <<db[j][1], Ints(db[j][2])>>]]

Result(r, x) == out' = [res |-> r, x |-> x]
Fail == UNCHANGED state /\ Result("err", "")
Skip == UNCHANGED state /\ Result("skip", "")
Tell(x) == UNCHANGED state /\ Result("ok", x)
Put(n, o) == objs' = (n :> o) @@ objs /\ UNCHANGED db /\ Result("ok", "")
Is(n, kind) == n \in DOMAIN objs /\ objs[n].kind = kind
Color(x, name) == [kind |-> "color", f |-> x, name |-> name]
InDb(n) == \E j \in DOMAIN db : db[j][1] = n
OfDb(n) == db[CHOOSE j \in DOMAIN db : db[j][1] = n][2]

Execute(op) ==
    CASE op.o = "new" ->   \* a style with some of its fields given
            LET V == [f \in Fields(op.kind) |-> IF f \in DOMAIN op.f THEN Value(f, op.f[f]) ELSE Default(f)]
            IN IF \E f \in DOMAIN V : V[f].t = "bad" THEN Fail ELSE Put(op.k, [kind |-> op.kind, f |-> V])
      [] op.o = "set" ->
            IF op.k \notin DOMAIN objs THEN Skip
            ELSE IF op.f \notin Fields(objs[op.k].kind) THEN Skip
            ELSE LET v == Value(op.f, op.v) IN IF v.t = "bad" THEN Fail ELSE Put(op.k, [objs[op.k] EXCEPT !.f[op.f] = v])
      [] op.o = "clone" -> IF op.k0 \notin DOMAIN objs THEN Skip ELSE IF objs[op.k0].kind = "unit" THEN Skip ELSE Put(op.k, objs[op.k0])
      \* colours
      [] op.o = "hex" -> Put(op.k, Color(Bytes(op.v), op.name))
      [] op.o = "text" -> Fail
      [] op.o = "rgb" -> LET V == [j \in 1..3 |-> Component(op.v[j])] IN IF \A j \in 1..3 : V[j].ok THEN Put(op.k, Color([j \in 1..3 |-> V[j].v], op.name)) ELSE Fail
      [] op.o = "hls" -> Put(op.k, Color(LET v == [j \in 1..3 |-> R(op.v[j][1], op.v[j][2])] IN FromHls(v[1], v[2], v[3]), op.name))
      [] op.o = "hsv" -> Put(op.k, Color(LET v == [j \in 1..3 |-> R(op.v[j][1], op.v[j][2])] IN FromHsv(v[1], v[2], v[3]), op.name))
      [] op.o \in {"copy", "viahls", "viahsv"} -> IF Is(op.k0, "color") THEN Put(op.k, Color(objs[op.k0].f, "")) ELSE Skip
      [] op.o = "viastr" -> IF Is(op.k0, "color") THEN (IF Certain(objs[op.k0].f) THEN Put(op.k, Color(Rounded(objs[op.k0].f), "")) ELSE Skip) ELSE Skip
      [] op.o = "channel" -> IF ~Is(op.k, "color") THEN Skip ELSE LET v == Component(op.v) IN IF v.ok THEN Put(op.k, [objs[op.k] EXCEPT !.f[op.j] = v.v]) ELSE Fail
      [] op.o = "name" -> IF ~Is(op.k, "color") THEN Skip ELSE Put(op.k, [objs[op.k] EXCEPT !.name = op.v])
      [] op.o = "eq" -> IF Is(op.k, "color") /\ Is(op.k0, "color")
                        THEN (IF Certain(objs[op.k].f) /\ Certain(objs[op.k0].f) THEN Tell(Rounded(objs[op.k].f) = Rounded(objs[op.k0].f)) ELSE Skip) ELSE Skip
      \* units
      [] op.o = "unit" -> Put(op.k, [kind |-> "unit", f |-> [u |-> op.u, v |-> R(op.v[1], op.v[2])]])
      [] op.o = "to" -> IF Is(op.k0, "unit") THEN Put(op.k, [kind |-> "unit", f |-> Converted(objs[op.k0].f, op.u)]) ELSE Skip
      \* a database
      [] op.o = "add" -> IF ~Is(op.k, "color") THEN Skip
                         ELSE /\ db' = (IF InDb(op.n) THEN [j \in DOMAIN db |-> IF db[j][1] = op.n THEN <<op.n, objs[op.k].f>> ELSE db[j]] ELSE Append(db, <<op.n, objs[op.k].f>>))
                              /\ UNCHANGED objs /\ Result("ok", "")
      [] op.o \in {"get", "attr"} -> IF InDb(op.n) THEN Tell(Ints(OfDb(op.n))) ELSE Fail
      [] op.o = "has" -> Tell(InDb(op.n))
      [] op.o = "ensure" -> IF op.v.t = "name" THEN (IF InDb(op.v.v) THEN Tell(Ints(OfDb(op.v.v))) ELSE Fail)
                            ELSE LET v == Ensured(op.v) IN CASE v.t = "rgb" -> Tell(Ints(v.v)) [] v.t = "none" -> Tell(<<>>) [] OTHER -> Fail
      \* the colours of the library: the first of its sets which has a name gives the colour
      [] op.o = "known" -> LET S == { j \in DOMAIN c.sets : op.n \in DOMAIN c.sets[j] }
                           IN IF S = {} THEN Fail ELSE Tell(LET v == c.sets[CHOOSE j \in S : \A l \in S : j <= l][op.n] IN <<<<v[1], v[1]>>, <<v[2], v[2]>>, <<v[3], v[3]>>>>)

Start == objs = [n \in {} |-> 0] /\ db = <<>> /\ out = [res |-> "ok", x |-> ""]
CaseInit == i \in DOMAIN Cases /\ c = Cases[i] /\ k = 0 /\ Start
CaseNext == k < Len(c.ops) /\ Execute(c.ops[k + 1]) /\ k' = k + 1 /\ UNCHANGED <<i, c>>
Emit == PrintT(ToJson([i |-> i, k |-> k, out |-> out, see |-> See]))

-----------------------------------------------------------------------------
\* Bounded model: a style, its copy and the copy of its copy
Short(f) == CASE f = "stroke_style" -> [t |-> "enum", v |-> "DotLine"] [] f = "cap_style" -> [t |-> "enum", v |-> "RoundCap"]
              [] f = "join_style" -> [t |-> "enum", v |-> "MiterJoin"] [] f = "line_width" -> [t |-> "num", v |-> <<5, 2>>]
              [] f \in Alphas -> [t |-> "num", v |-> <<1, 4>>] [] f \in Colored -> [t |-> "hex", v |-> <<1, 2, 254>>] [] OTHER -> [t |-> "bool", v |-> TRUE]
Alphabet == { [o |-> "set", k |-> n, f |-> f, v |-> Short(f)] : n \in {"a", "b"}, f \in Fields("bezier") }
            \cup { [o |-> "clone", k |-> p[1], k0 |-> p[2]] : p \in {<<"a", "b">>, <<"b", "a">>} }
            \cup { [o |-> "set", k |-> "a", f |-> f, v |-> Bad] : f \in {"stroke_style", "fill_color"} }
ModelInit == i = 0 /\ k = 0 /\ db = <<>> /\ out = [res |-> "ok", x |-> ""]
             /\ \E kind \in {"path", "bezier"} : /\ c = <<[o |-> "new", k |-> "a", kind |-> kind, f |-> [n \in {} |-> Bad]]>>
                                                 /\ objs = [n \in {"a"} |-> [kind |-> kind, f |-> [f \in Fields(kind) |-> Default(f)]]]
ModelNext == /\ Len(c) < Depth
             /\ \E op \in Alphabet : Execute(op) /\ c' = Append(c, op)
             /\ out'.res # "skip" /\ UNCHANGED <<i, k>>
EmitStep == PrintT(ToJson([s |-> c, t |-> c', out |-> out', see |-> See']))
View == <<state, out.res, Len(c)>>

-----------------------------------------------------------------------------
Colours == { n \in DOMAIN objs : objs[n].kind = "color" }
Laws == /\ \A n \in Colours : LET x == objs[n].f IN /\ \A j \in 1..3 : Within(x[j]) /\ Up(x[j]) - Down(x[j]) \in {0, 1}
                                                   /\ LET h == Hls(x) IN FromHls(h[1], h[2], h[3]) = x
                                                   /\ LET v == Hsv(x) IN FromHsv(v[1], v[2], v[3]) = x
                                                   /\ Rounded(Rounded(x)) = Rounded(x)
        /\ \A n \in DOMAIN objs \ Colours : objs[n].kind \in {"path", "bezier"} => DOMAIN objs[n].f = Fields(objs[n].kind) /\ \A f \in DOMAIN objs[n].f : objs[n].f[f].t # "bad"
        /\ \A j, l \in DOMAIN db : db[j][1] = db[l][1] => j = l
\* an operation changes one object, an operation refused changes nothing
Separate == [][Cardinality({ n \in DOMAIN objs : objs'[n] # objs[n] }) <= 1 /\ (out'.res # "ok" => objs' = objs /\ db' = db)]_vars
\* a conversion keeps the length
Length(x) == RMul(x.v, Factor(x.u))
Kept == \A n \in DOMAIN objs : objs[n].kind = "unit" => Length(objs[n].f) = RMul(Converted(objs[n].f, "mm").v, Factor("mm"))
=============================================================================
