--------------------------------- MODULE Ids ---------------------------------
(* Identifiers of the operations of a pattern, which has several pieces: a new operation has the identifier which is given, if no
   operation of the pattern has it, or, when none is given, some identifier which no operation has. Writing the pattern to a file and
   reading it again keeps the identifiers.

   This is a validator of traces: an event is [o: "add" or "reread", given: the identifier which is asked (0: none), got: the one
   which the operation has (0: refused), ids: the identifiers of the pattern afterwards].                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Bound
Cases == ndJsonDeserialize(IOEnv.VF_IN)
VARIABLES i, k, used, verdict
vars == <<i, k, used, verdict>>

Set(s) == {s[j] : j \in DOMAIN s}
Same(s, t) == Set(s) = Set(t) /\ Len(s) = Len(t)
Given(n, got, ids) == IF n \in Set(used) THEN got = 0 /\ Same(ids, used) ELSE got = n /\ Same(ids, Append(used, n))
Chosen(got, ids) == got > 0 /\ got \notin Set(used) /\ Same(ids, Append(used, got))
Allowed(e) == CASE e.o = "add" -> IF e.given > 0 THEN Given(e.given, e.got, e.ids) ELSE Chosen(e.got, e.ids)
                [] e.o = "reread" -> Same(e.ids, used)

\* traces of the code
TraceInit == i \in DOMAIN Cases /\ k = 0 /\ used = <<>> /\ verdict = "ok"
TraceNext == /\ verdict = "ok" /\ k < Len(Cases[i]) /\ k' = k + 1 /\ i' = i
             /\ verdict' = (IF Allowed(Cases[i][k']) THEN "ok" ELSE "wrong")
             /\ used' = Cases[i][k'].ids
Emit == IF verdict # "ok" \/ k = Len(Cases[i]) THEN PrintT(ToJson([i |-> i, k |-> k, verdict |-> verdict])) ELSE TRUE

\* all the histories
ModelInit == i = 0 /\ k = 0 /\ used = <<>> /\ verdict = "ok"
ModelNext == /\ k < Bound /\ k' = k + 1 /\ UNCHANGED <<i, verdict>>
             /\ \E n \in 0..Bound, got \in 0..Bound, ids \in {used} \cup {Append(used, m) : m \in 1..Bound} :
                    /\ IF n > 0 THEN Given(n, got, ids) ELSE Chosen(got, ids)
                    /\ used' = ids
Unique == verdict = "ok" => Cardinality(Set(used)) = Len(used)
=============================================================================
