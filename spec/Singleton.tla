------------------------------ MODULE Singleton ------------------------------
(* A class whose calls give one instance.  Threads call classes; the constructor of a class may call other classes, and may fail.
   A call enters the class (one thread at a time, the same thread can enter again), gives the instance if there is one, else constructs it.
   prog.classes : class -> [nested : classes called by its constructor, fails : number of its first constructions which fail]
   prog.threads : calls of each thread.
   The instance is named by the number of its construction; emitted outcome: what each call gives, the constructions of each class.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Programs == ndJsonDeserialize(IOEnv.VF_IN)
VARIABLES prog, owner, depth, inst, tried, stack, pc, ret
vars == <<prog, owner, depth, inst, tried, stack, pc, ret>>

P == Programs[prog]
Threads == DOMAIN P.threads
Classes == DOMAIN P.classes
None == 0
Failed == -1
Free == 0
Init == /\ prog \in DOMAIN Programs
        /\ owner = [x \in DOMAIN Programs[prog].classes |-> Free] /\ depth = [x \in DOMAIN Programs[prog].classes |-> 0]
        /\ inst = [x \in DOMAIN Programs[prog].classes |-> None] /\ tried = [x \in DOMAIN Programs[prog].classes |-> 0]
        /\ stack = [t \in DOMAIN Programs[prog].threads |-> <<>>] /\ pc = [t \in DOMAIN Programs[prog].threads |-> 1]
        /\ ret = [t \in DOMAIN Programs[prog].threads |-> <<>>]

\* frames: at "enter" the class waits for its lock, at "test" it is inside, at "build" its constructor runs the nested call number n
Frame(x) == [cls |-> x, at |-> "enter", n |-> 1, id |-> 0]
Top(t) == stack[t][Len(stack[t])]
SetTop(t, f) == stack' = [stack EXCEPT ![t][Len(stack[t])] = f]
Busy(t) == stack[t] # <<>>

Call(t) == /\ ~Busy(t) /\ pc[t] <= Len(P.threads[t])
           /\ stack' = [stack EXCEPT ![t] = <<Frame(P.threads[t][pc[t]])>>]
           /\ UNCHANGED <<prog, owner, depth, inst, tried, pc, ret>>
Enter(t) == /\ Busy(t) /\ Top(t).at = "enter" /\ owner[Top(t).cls] \in {Free, t}
            /\ owner' = [owner EXCEPT ![Top(t).cls] = t] /\ depth' = [depth EXCEPT ![Top(t).cls] = @ + 1]
            /\ SetTop(t, [Top(t) EXCEPT !.at = "test"])
            /\ UNCHANGED <<prog, inst, tried, pc, ret>>
Leave(x) == /\ depth' = [depth EXCEPT ![x] = @ - 1]
            /\ owner' = IF depth[x] = 1 THEN [owner EXCEPT ![x] = Free] ELSE owner
\* the call of the top gives the value v to the calling frame, or to the program
Give(t, v) == /\ Leave(Top(t).cls)
              /\ IF Len(stack[t]) = 1
                 THEN /\ stack' = [stack EXCEPT ![t] = <<>>] /\ pc' = [pc EXCEPT ![t] = @ + 1]
                      /\ ret' = [ret EXCEPT ![t] = Append(@, v)]
                 ELSE /\ LET s == SubSeq(stack[t], 1, Len(stack[t]) - 1) f == s[Len(s)] IN
                         \* a nested failure makes the constructor fail
                         stack' = [stack EXCEPT ![t] = [s EXCEPT ![Len(s)] = IF v = Failed THEN [f EXCEPT !.at = "raise"] ELSE [f EXCEPT !.n = @ + 1]]]
                      /\ UNCHANGED <<pc, ret>>
Get(t) == /\ Busy(t) /\ Top(t).at = "test" /\ inst[Top(t).cls] # None
          /\ Give(t, inst[Top(t).cls]) /\ UNCHANGED <<prog, inst, tried>>
Build(t) == /\ Busy(t) /\ Top(t).at = "test" /\ inst[Top(t).cls] = None
            /\ tried' = [tried EXCEPT ![Top(t).cls] = @ + 1]
            /\ SetTop(t, [Top(t) EXCEPT !.at = "build", !.id = tried[Top(t).cls] + 1])
            /\ UNCHANGED <<prog, owner, depth, inst, pc, ret>>
Building(t) == Busy(t) /\ Top(t).at = "build"
Nested(t) == P.classes[Top(t).cls].nested
Inner(t) == /\ Building(t) /\ Top(t).n <= Len(Nested(t))
            /\ stack' = [stack EXCEPT ![t] = Append(@, Frame(Nested(t)[Top(t).n]))]
            /\ UNCHANGED <<prog, owner, depth, inst, tried, pc, ret>>
Finish(t) == /\ Building(t) /\ Top(t).n > Len(Nested(t))
             /\ IF Top(t).id <= P.classes[Top(t).cls].fails
                THEN Give(t, Failed) /\ UNCHANGED inst
                ELSE inst' = [inst EXCEPT ![Top(t).cls] = Top(t).id] /\ Give(t, Top(t).id)
             /\ UNCHANGED <<prog, tried>>
Raise(t) == /\ Busy(t) /\ Top(t).at = "raise" /\ Give(t, Failed) /\ UNCHANGED <<prog, inst, tried>>
Step(t) == Call(t) \/ Enter(t) \/ Get(t) \/ Build(t) \/ Inner(t) \/ Finish(t) \/ Raise(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in 1..4 : WF_vars(t \in Threads /\ Step(t))

Done == \A t \in Threads : ~Busy(t) /\ pc[t] > Len(P.threads[t])
-----------------------------------------------------------------------------
Given == { <<t, j>> : t \in Threads, j \in 1..4 }
Results == { tj \in Given : tj[2] \in DOMAIN ret[tj[1]] }
Value(tj) == ret[tj[1]][tj[2]]
Class(tj) == P.threads[tj[1]][tj[2]]
\* every call of a class gives the same instance, or fails because its construction failed
OneInstance == \A a, b \in Results : Class(a) = Class(b) /\ Value(a) # Failed /\ Value(b) # Failed => Value(a) = Value(b)
Current == \A a \in Results : Value(a) # Failed => Value(a) = inst[Class(a)]
\* a constructor is run by one thread at a time, and never again once there is an instance
InBuild(x) == { t \in Threads : \E j \in DOMAIN stack[t] : stack[t][j].cls = x /\ stack[t][j].at \in {"build", "raise"} }
Exclusive == \A x \in Classes : Cardinality(InBuild(x)) <= 1 /\ (inst[x] # None => InBuild(x) = {})
Once == \A x \in Classes : inst[x] # None => inst[x] = tried[x]
NoDeadlock == Done \/ ENABLED Next
Released == Done => \A x \in Classes : owner[x] = Free /\ depth[x] = 0
Stable == [][ \A x \in Classes : inst[x] # None => inst'[x] = inst[x] /\ tried'[x] = tried[x] ]_vars
Ends == <>Done

Emit == Done => PrintT(ToJson([p |-> prog, ret |-> ret, tried |-> tried]))

-----------------------------------------------------------------------------
\* Objects which share their state: a history of new objects (with values), of changes and of removals
MonoInit == prog \in DOMAIN Programs /\ pc = 0 /\ inst = 0 /\ tried = <<>> /\ ret = <<>> /\ owner = 0 /\ depth = 0 /\ stack = 0
Op == P.ops[pc + 1]
Keep(s, key) == SelectSeq(s, LAMBDA e : e[1] # key)
MonoNext == /\ pc < Len(P.ops) /\ pc' = pc + 1
            /\ inst' = IF Op[1] = "new" THEN inst + 1 ELSE inst
            /\ tried' = IF Op[1] \in {"new", "set"} THEN Append(Keep(tried, Op[2]), <<Op[2], Op[3]>>) ELSE Keep(tried, Op[2])
            /\ ret' = Append(ret, tried')
            /\ UNCHANGED <<prog, owner, depth, stack>>
MonoLaw == \A j, l \in DOMAIN tried : j # l => tried[j][1] # tried[l][1]
MonoEmit == pc = Len(P.ops) => PrintT(ToJson([p |-> prog, ret |-> ret, count |-> inst]))
=============================================================================
