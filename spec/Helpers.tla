------------------------------- MODULE Helpers -------------------------------
(* Windows of a sequence, real roots, dates, and paths.                                               *)
EXTENDS Rat, FiniteSets, SequencesExt, TLC, Json, IOUtils
Inputs == ndJsonDeserialize(IOEnv.VF_IN)
VARIABLES i, k, val, out
vars == <<i, k, val, out>>
P == Inputs[i]

-----------------------------------------------------------------------------
\* Windows of n items of a sequence s: a window moves from item to item, on a line or on a circle
Wrap(n, m) == ((n - 1) % m) + 1
Window(s, j, n) == [ l \in 1..n |-> s[Wrap(j + l - 1, Len(s))] ]
Positions == IF P.closed THEN Len(P.s) ELSE IF P.n = 0 THEN 0 ELSE Max2(0, Len(P.s) - P.n + 1)
WInit == i \in DOMAIN Inputs /\ k = 0 /\ val = <<>> /\ out = <<>>
WNext == k < Positions /\ k' = k + 1 /\ val' = Window(P.s, k', P.n) /\ out' = Append(out, val') /\ UNCHANGED i
Shift == \A j \in 1..(Len(out) - 1) : P.n >= 1 => SubSeq(out[j], 2, P.n) = SubSeq(out[j + 1], 1, P.n - 1)
Starts == k = Positions /\ P.closed => \A j \in DOMAIN out : P.n >= 1 => out[j][1] = P.s[j]
Lasts == k = Positions /\ ~P.closed /\ k > 0 => out[k][P.n] = P.s[Len(P.s)]
WEmit == k = Positions => PrintT(ToJson([i |-> i, out |-> out]))

-----------------------------------------------------------------------------
\* Polynomials: the product of factors, from the highest degree; linear factors (x - r), quadratic ones x^2 + px + q without root
MulPoly(a, f) == [ n \in 1..(Len(a) + Len(f) - 1) |->
    FoldLeft(LAMBDA acc, j : IF n - j + 1 \in DOMAIN f THEN acc + a[j] * f[n - j + 1] ELSE acc, 0, [ j \in DOMAIN a |-> j ]) ]
RInitial == i \in DOMAIN Inputs /\ k = 0 /\ val = <<P.lead>> /\ out = {}
RStep == /\ k < Len(P.factors) /\ k' = k + 1 /\ val' = MulPoly(val, P.factors[k'])
         /\ out' = IF Len(P.factors[k']) = 2 THEN out \cup {-P.factors[k'][2]} ELSE out
         /\ UNCHANGED i
Eval(a, x) == FoldLeft(LAMBDA acc, c : acc * x + c, 0, a)
NoRoot == \A n \in DOMAIN P.factors : Len(P.factors[n]) = 3 => P.factors[n][2] * P.factors[n][2] < 4 * P.factors[n][3]
RootsAre == \A x \in -6..6 : (Eval(val, x) = 0) = (x \in out)
REmit == k = Len(P.factors) => PrintT(ToJson([i |-> i, coefs |-> val, roots |-> SetToSortSeq(out, LAMBDA a, b : a < b)]))

-----------------------------------------------------------------------------
\* Dates: the text of a date is read digit group after digit group
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Days(y, m) == CASE m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
Valid(d) == d[1] \in 1..9999 /\ d[2] \in 1..12 /\ d[3] \in 1..Days(d[1], d[2])
ValidTime(d) == Len(d) = 3 \/ (d[4] \in 0..23 /\ d[5] \in 0..59 /\ d[6] \in 0..59)
DInit == i \in DOMAIN Inputs /\ k = 0 /\ val = Inputs[i].d /\ out = <<>>
DNext == FALSE /\ UNCHANGED vars
DEmit == PrintT(ToJson([i |-> i, ok |-> Valid(val) /\ ValidTime(val)]))

-----------------------------------------------------------------------------
\* Paths: components are walked from the current directory; "" and "." stay, ".." goes up
PInit == /\ i \in DOMAIN Inputs /\ k = 0 /\ out = <<>>
         /\ val = CASE P.from = "root" -> <<>> [] P.from = "home" -> P.home [] OTHER -> P.cwd
PNext == /\ k < Len(P.parts) /\ k' = k + 1
         /\ val' = CASE P.parts[k'] \in {"", "."} -> val
                     [] P.parts[k'] = ".." -> (IF val = <<>> THEN val ELSE SubSeq(val, 1, Len(val) - 1))
                     [] OTHER -> Append(val, P.parts[k'])
         /\ UNCHANGED <<i, out>>
Clean == \A n \in DOMAIN val : val[n] \notin {"", ".", ".."}
Parent(s, n) == SubSeq(s, 1, Max2(0, Len(s) - n))
PEmit == k = Len(P.parts) => PrintT(ToJson([i |-> i, path |-> val, parents |-> [ n \in 1..3 |-> Parent(val, n) ]]))

-----------------------------------------------------------------------------
\* A file of a given name is searched in directories, one after the other: tree = sequence of <<directories..., file>>
Under(d, f) == Len(f) > Len(d) /\ SubSeq(f, 1, Len(d)) = d
Found(d) == { n \in DOMAIN P.tree : Under(d, P.tree[n]) /\ P.tree[n][Len(P.tree[n])] = P.name }
SInit == i \in DOMAIN Inputs /\ k = 0 /\ val = {} /\ out = FALSE
SNext == /\ ~out /\ k < Len(P.dirs) /\ k' = k + 1 /\ val' = Found(P.dirs[k']) /\ out' = (val' # {}) /\ UNCHANGED i
FirstDir == out => \A j \in 1..(k - 1) : Found(P.dirs[j]) = {}
SEmit == (out \/ k = Len(P.dirs)) => PrintT(ToJson([i |-> i, found |-> SetToSeq(val)]))
=============================================================================
