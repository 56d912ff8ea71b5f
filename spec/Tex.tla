-------------------------------- MODULE Tex --------------------------------
(* The text of a TeX document: buffers and environments which are filled with texts, with other buffers, or with copies of them.

   body[b] is what was appended to the buffer b since it was cleared: a text, a buffer (by reference: what it gets later is in the document)
   or a copy: nothing changes any more in it. The buffers 1 and 2 are the preamble and the content of the document; the content is an environment.
   A text is a sequence of tokens: "s" a text, "(" the begin and ")" the end of the environment of a buffer.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.VF_IN)
VARIABLES i, k, made, body, res
vars == <<i, k, made, body, res>>
Ops == Cases[i]

RECURSIVE Flat(_, _, _, _)
Flat(M, B, b, n) ==     \* the tokens of the n first elements of b
    IF n = 0 THEN <<>>
    ELSE LET x == B[b][n]
             t == CASE x.t = "s" -> <<[t |-> "s", v |-> x.v, n |-> 0]>>
                    [] x.t = "copy" -> x.v
                    [] x.t = "ref" -> LET f == Flat(M, B, x.v, Len(B[x.v])) IN IF M[x.v] = "env" THEN <<[t |-> "(", v |-> "", n |-> x.v]>> \o f \o <<[t |-> ")", v |-> "", n |-> x.v]>> ELSE f
         IN Flat(M, B, b, n - 1) \o t
Whole(M, B, b) == LET f == Flat(M, B, b, Len(B[b])) IN IF M[b] = "env" THEN <<[t |-> "(", v |-> "", n |-> b]>> \o f \o <<[t |-> ")", v |-> "", n |-> b]>> ELSE f
Text(b) == Whole(made, body, b)
DocumentText == Text(1) \o Text(2)

RECURSIVE Reach(_, _)
Reach(B, S) == LET T == S \cup UNION { { B[b][n].v : n \in { n \in DOMAIN B[b] : B[b][n].t = "ref" } } : b \in S } IN IF T = S THEN S ELSE Reach(B, T)

\* one after the other: a copy of the buffer itself has what precedes
RECURSIVE Extend(_, _, _, _)
Extend(B, b, x, deep) == IF x = <<>> THEN B
                         ELSE LET y == Head(x)
                                  e == IF y.t = "s" THEN y ELSE IF deep THEN [t |-> "copy", v |-> Whole(made, B, y.v)] ELSE y
                              IN Extend([B EXCEPT ![b] = Append(@, e)], b, Tail(x), deep)
Refers(op) == ~op.deep /\ \E n \in DOMAIN op.x : op.x[n].t = "ref" /\ op.b \in Reach(body, {op.x[n].v})
Do(op) ==
    CASE op.o = "new" -> made' = Append(made, op.kind) /\ body' = Append(body, <<>>) /\ res' = "ok"
      [] op.o = "append" -> IF Refers(op) THEN UNCHANGED <<made, body>> /\ res' = "skip"       \* a text without end
                            ELSE /\ body' = Extend(body, op.b, op.x, op.deep)
                                 /\ UNCHANGED made /\ res' = "ok"
      [] op.o = "clear" -> body' = [body EXCEPT ![op.b] = <<>>] /\ UNCHANGED made /\ res' = "ok"
      [] op.o = "page" -> body' = [body EXCEPT ![2] = Append(@, [t |-> "s", v |-> "newpage"])] /\ UNCHANGED made /\ res' = "ok"
      [] op.o = "write" -> UNCHANGED <<made, body>> /\ res' = "ok"
Init == i \in DOMAIN Cases /\ k = 0 /\ made = <<"buffer", "env">> /\ body = <<<<>>, <<>>>> /\ res = "ok"
Next == k < Len(Ops) /\ Do(Ops[k + 1]) /\ k' = k + 1 /\ i' = i
Emit == PrintT(ToJson([i |-> i, k |-> k, res |-> res, text |-> [b \in DOMAIN body |-> Text(b)]]))

-----------------------------------------------------------------------------
\* environments are closed, in the reverse order of their openings
RECURSIVE Balanced(_, _)
Balanced(t, open) == IF t = <<>> THEN open = <<>>
                     ELSE CASE Head(t).t = "s" -> Balanced(Tail(t), open)
                            [] Head(t).t = "(" -> Balanced(Tail(t), <<Head(t).n>> \o open)
                            [] Head(t).t = ")" -> open # <<>> /\ Head(open) = Head(t).n /\ Balanced(Tail(t), Tail(open))
Closed == \A b \in DOMAIN body : Balanced(Text(b), <<>>)
Acyclic == \A b \in DOMAIN body : LET next == { body[b][n].v : n \in { n \in DOMAIN body[b] : body[b][n].t = "ref" } } IN b \notin Reach(body, next)
\* an operation on a buffer changes the texts of the buffers which refer to it, and no other
Local == [][\A b \in DOMAIN body : k' > k /\ Ops[k'].o \in {"append", "clear"} /\ Ops[k'].b \notin Reach(body, {b}) => Whole(made', body', b) = Text(b)]_vars
\* what is appended comes last
ComesLast == [][k' > k /\ Ops[k'].o = "append" /\ res' = "ok" =>
             LET b == Ops[k'].b IN SubSeq(Flat(made', body', b, Len(body'[b])), 1, Len(Flat(made, body, b, Len(body[b])))) = Flat(made, body, b, Len(body[b]))]_vars
=============================================================================
