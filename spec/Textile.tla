------------------------------- MODULE Textile -------------------------------
(* Yarn numbers, data bases of named objects, and the file of fibers.                                  *)
EXTENDS Rat, FiniteSets, TLC, Json, IOUtils
Inputs == ndJsonDeserialize(IOEnv.VF_IN)
VARIABLES i, k, val, out
vars == <<i, k, val, out>>
P == Inputs[i]

-----------------------------------------------------------------------------
\* Yarn numbers: tex is g/km, denier is g/9km, metric number is m/g.  A history of conversions goes from unit to unit.
YInit == i \in DOMAIN Inputs /\ k = 0 /\ val = <<"tex", P.tex>> /\ out = <<val>>
Conv(u, v, w) == CASE u = "tex" /\ w = "den" -> RMul(v, I(9))
                   [] u = "den" /\ w = "tex" -> RDiv(v, I(9))
                   [] u = "tex" /\ w = "nm" -> RDiv(I(1000), v)
                   [] u = "nm" /\ w = "tex" -> RDiv(I(1000), v)
YNext == /\ k < Len(P.ops) /\ k' = k + 1
         /\ val' = <<P.ops[k + 1], Conv(val[1], val[2], P.ops[k + 1])>> /\ out' = Append(out, val') /\ UNCHANGED i
\* the mass of 9 km of the yarn, in gram, is the same in every unit
Mass(u, v) == CASE u = "tex" -> RMul(v, I(9)) [] u = "den" -> v [] u = "nm" -> RDiv(I(9000), v)
Same == Mass(val[1], val[2]) = RMul(P.tex, I(9))
YEmit == k = Len(P.ops) => PrintT(ToJson([i |-> i, out |-> out, den |-> Conv("tex", P.tex, "den"), nm |-> Conv("tex", P.tex, "nm")]))

-----------------------------------------------------------------------------
\* A data base: objects <<name, number>> in the order of their addition; the first object of a name is kept
Names(s) == { s[n][1] : n \in DOMAIN s }
Get(s, name) == IF name \in Names(s) THEN (CHOOSE n \in DOMAIN s : s[n][1] = name) ELSE 0
Added(s, o) == IF o[1] \in Names(s) THEN s ELSE Append(s, o)
BInit == i \in DOMAIN Inputs /\ k = 0 /\ val = <<>> /\ out = <<>>
BNext == /\ k < Len(P.ops) /\ k' = k + 1
         /\ LET op == P.ops[k + 1] IN
            IF op[1] = "add" THEN val' = Added(val, <<op[2], k + 1>>) /\ out' = Append(out, Len(val'))
            ELSE LET n == Get(val, op[2]) IN val' = val /\ out' = Append(out, IF n = 0 THEN 0 ELSE val[n][2])
         /\ UNCHANGED i
OneOfEachName == Cardinality(Names(val)) = Len(val)
FirstKept == \A n \in DOMAIN val : \A j \in 1..k : P.ops[j][1] = "add" /\ P.ops[j][2] = val[n][1] => val[n][2] <= j
BEmit == k = Len(P.ops) => PrintT(ToJson([i |-> i, out |-> out, db |-> val]))

-----------------------------------------------------------------------------
\* Files of fibers: three sections in order, each fiber has the class of its section
Entries(f) == [ n \in DOMAIN f.plant |-> <<f.plant[n], "Natural", n>> ]
              \o [ n \in DOMAIN f.animal |-> <<f.animal[n], "Natural", Len(f.plant) + n>> ]
              \o [ n \in DOMAIN f.synthetic |-> <<f.synthetic[n], "Synthetic", Len(f.plant) + Len(f.animal) + n>> ]
RECURSIVE Concat(_)
Concat(fs) == IF fs = <<>> THEN <<>> ELSE [ n \in DOMAIN Entries(Head(fs)) |-> Entries(Head(fs))[n] ] \o Concat(Tail(fs))
FInit == i \in DOMAIN Inputs /\ k = 0 /\ val = <<>> /\ out = Concat(P.files)
FNext == k < Len(out) /\ k' = k + 1 /\ val' = Added(val, out[k']) /\ UNCHANGED <<i, out>>
Whole == k = Len(out) => \A n \in DOMAIN out : out[n][1] \in Names(val)
FEmit == k = Len(out) => PrintT(ToJson([i |-> i, db |-> val]))
=============================================================================
