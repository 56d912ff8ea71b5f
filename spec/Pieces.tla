-------------------------------- MODULE Pieces --------------------------------
(* The pieces (scopes) of a pattern: a sequence, in the order of their additions. Names can be changed and shared: a name stands for the
   first piece which has it.                                                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Names, Bound
Cases == ndJsonDeserialize(IOEnv.VF_IN)
VARIABLES i, k, pieces, made
vars == <<i, k, pieces, made>>

At(n) == {j \in DOMAIN pieces : pieces[j].name = n}
First(n) == CHOOSE j \in At(n) : \A m \in At(n) : j <= m
Found(n) == IF At(n) = {} THEN 0 ELSE pieces[First(n)].key
Without(j) == [m \in 1..(Len(pieces) - 1) |-> IF m < j THEN pieces[m] ELSE pieces[m + 1]]

Add(n) == pieces' = Append(pieces, [name |-> n, key |-> made + 1]) /\ made' = made + 1
Remove(n) == pieces' = (IF At(n) = {} THEN pieces ELSE Without(First(n))) /\ UNCHANGED made
Rename(j, n) == pieces' = (IF j \in DOMAIN pieces THEN [pieces EXCEPT ![j].name = n] ELSE pieces) /\ UNCHANGED made
Do(op) == CASE op.o = "add" -> Add(op.n) [] op.o = "remove" -> Remove(op.n) [] op.o = "rename" -> Rename(op.j, op.n)

CaseInit == i \in DOMAIN Cases /\ k = 0 /\ pieces = <<>> /\ made = 0
CaseNext == k < Len(Cases[i]) /\ Do(Cases[i][k + 1]) /\ k' = k + 1 /\ i' = i
Emit == PrintT(ToJson([i |-> i, k |-> k, pieces |-> pieces, found |-> [n \in Names |-> Found(n)]]))
ModelInit == i = 0 /\ k = 0 /\ pieces = <<>> /\ made = 0
ModelNext == k < Bound /\ k' = k + 1 /\ i' = i /\ \E n \in Names : Add(n) \/ Remove(n) \/ \E j \in DOMAIN pieces : Rename(j, n)

\* keys identify the pieces, which are in the order of their additions
Ordered == \A m, n \in DOMAIN pieces : m < n => pieces[m].key < pieces[n].key
FirstOne == \A n \in Names : IF At(n) = {} THEN Found(n) = 0 ELSE \E j \in At(n) : pieces[j].key = Found(n) /\ \A m \in 1..(j - 1) : pieces[m].name # n
\* a removal removes one piece, the first of its name, and the others stay in order
OneRemoved == [][Len(pieces') < Len(pieces) => \E j \in DOMAIN pieces : pieces' = Without(j) /\ pieces[j].key = Found(pieces[j].name)]_vars
=============================================================================
