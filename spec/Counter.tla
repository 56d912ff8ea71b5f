------------------------------ MODULE Counter ------------------------------
(* A counter shared by threads.  Each operation is one atomic action:                            *)
(*   <<"inc", v>>   add v and return the new value                                               *)
(*   <<"set", v>>   set to v, refused when v is not greater than the current value               *)
(*   <<"get", 0>>   read                                                                         *)
(* The programs (one list of operations per thread) come from the harness, TLC visits every      *)
(* interleaving of each of them and emits the outcome of each complete execution.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Programs == ndJsonDeserialize(IOEnv.VF_IN)

VARIABLES prog,   \* which program
          pc,     \* thread -> index of its next operation
          val,    \* value of the counter
          ret     \* thread -> sequence of results, -99 stands for refused

vars == <<prog, pc, val, ret>>

Refused == -99
Threads(p) == DOMAIN Programs[p].threads
Ops(p, t) == Programs[p].threads[t]

Init == /\ prog \in DOMAIN Programs
        /\ pc = [t \in Threads(prog) |-> 1]
        /\ val = Programs[prog].initial
        /\ ret = [t \in Threads(prog) |-> <<>>]

Op(t) == Ops(prog, t)[pc[t]]
CanStep(t) == pc[t] <= Len(Ops(prog, t))
Advance(t, r) == /\ pc' = [pc EXCEPT ![t] = @ + 1]
                 /\ ret' = [ret EXCEPT ![t] = Append(@, r)]
                 /\ UNCHANGED prog

Increment(t) == /\ CanStep(t)
                /\ Op(t)[1] = "inc"
                /\ val' = val + Op(t)[2]
                /\ Advance(t, val')

Set(t) == /\ CanStep(t)
          /\ Op(t)[1] = "set"
          /\ Op(t)[2] > val
          /\ val' = Op(t)[2]
          /\ Advance(t, val')

RefuseSet(t) == /\ CanStep(t)
                /\ Op(t)[1] = "set"
                /\ Op(t)[2] <= val
                /\ UNCHANGED val
                /\ Advance(t, Refused)

Get(t) == /\ CanStep(t)
          /\ Op(t)[1] = "get"
          /\ UNCHANGED val
          /\ Advance(t, val)

Next == \E t \in DOMAIN pc : Increment(t) \/ Set(t) \/ RefuseSet(t) \/ Get(t)
Spec == Init /\ [][Next]_vars

Done == \A t \in DOMAIN pc : ~ CanStep(t)

-----------------------------------------------------------------------------
Results == UNION { { <<t, i>> : i \in DOMAIN ret[t] } : t \in DOMAIN ret }
Allocates(ti) == LET o == Ops(prog, ti[1])[ti[2]] IN o[1] = "set" \/ (o[1] = "inc" /\ o[2] > 0)
Value(ti) == ret[ti[1]][ti[2]]
NonNegative == \A t \in Threads(prog) : \A i \in DOMAIN Ops(prog, t) :
                   Ops(prog, t)[i][1] = "inc" => Ops(prog, t)[i][2] >= 0

\* No value is given twice
Unique == NonNegative =>
            \A a, b \in { r \in Results : Allocates(r) /\ Value(r) # Refused } :
                a # b => Value(a) # Value(b)

\* The values a thread receives never go back
ThreadMonotone == NonNegative =>
    \A t \in DOMAIN ret : \A i, j \in DOMAIN ret[t] :
        (i < j /\ ret[t][i] # Refused /\ ret[t][j] # Refused) => ret[t][i] <= ret[t][j]

\* An accepted value is never lost
Last == NonNegative => \A r \in Results : Value(r) # Refused => Value(r) <= val

NeverDecreases == [][NonNegative => val' >= val]_vars

Emit == Done => PrintT(ToJson([p |-> prog, ret |-> ret, val |-> val]))
=============================================================================
