---------------------------- MODULE SvgTransform ----------------------------
(* The transform attribute of SVG, read character after character: a list of transforms, each one composed on the right.

   Case: d (the characters), ops (the transforms meant by the writer), valid.                                       *)
EXTENDS Affine, Lexer, TLC, Json, IOUtils
VARIABLES c, i, k, lex, map
tvars == <<c, i, k, lex, map>>
Cases == ndJsonDeserialize(IOEnv.VF_IN)
TransformInit == /\ i \in DOMAIN Cases /\ c = Cases[i] /\ k = 0 /\ map = Id
                 /\ lex = [mode |-> "list", name |-> "", num |-> NoNumber, args |-> <<>>, sep |-> "", ok |-> TRUE, log |-> <<>>]

Letters == {"a", "c", "e", "i", "l", "m", "n", "o", "r", "s", "t", "x"}
Quarter(angle) == LET q == (angle[1] % 360) \div 90
                  IN CASE q = 0 -> V(1, 0) [] q = 1 -> V(0, 1) [] q = 2 -> V(-1, 0) [] q = 3 -> V(0, -1)
\* <<>> when the transform isn't defined
Meaning(name, a) ==
    LET n == Len(a) IN
    CASE name = "matrix" /\ n = 6 -> <<Map(a[1], a[3], a[2], a[4], a[5], a[6])>>
      [] name = "translate" /\ n = 1 -> <<Translation(<<a[1], I(0)>>)>>
      [] name = "translate" /\ n = 2 -> <<Translation(<<a[1], a[2]>>)>>
      [] name = "scale" /\ n = 1 -> <<Scale(a[1], a[1])>>
      [] name = "scale" /\ n = 2 -> <<Scale(a[1], a[2])>>
      [] name = "rotate" /\ n = 1 -> <<Rotation(Quarter(a[1])[1], Quarter(a[1])[2])>>
      [] name = "rotate" /\ n = 3 -> <<RotationAt(<<a[2], a[3]>>, Quarter(a[1])[1], Quarter(a[1])[2])>>
      [] OTHER -> <<>>

Wrong(s) == [s EXCEPT !.l.ok = FALSE]
Flush(s) == LET a == s.l.num IN
            IF a.mode = "none" THEN s
            ELSE IF Complete(a) THEN [s EXCEPT !.l.num = NoNumber, !.l.args = Append(@, Value(a)), !.l.sep = "number"] ELSE Wrong(s)
Close(s) ==
    LET f == Meaning(s.l.name, s.l.args) IN
    IF f = <<>> \/ s.l.sep = "comma" THEN Wrong(s)
    ELSE [l |-> [s.l EXCEPT !.mode = "list", !.name = "", !.args = <<>>, !.sep = "transform", !.log = Append(@, <<s.l.name, s.l.args>>)],
          f |-> Compose(s.f, f[1])]
Between(s, x) ==
    CASE IsSpace(x) -> IF s.l.mode = "name" THEN [s EXCEPT !.l.mode = "named"] ELSE s
      [] x = "," -> IF (s.l.mode = "args" /\ s.l.sep = "number") \/ (s.l.mode = "list" /\ s.l.sep = "transform")
                    THEN [s EXCEPT !.l.sep = "comma"] ELSE Wrong(s)
      [] x \in Letters -> IF s.l.mode = "list" THEN [s EXCEPT !.l.mode = "name", !.l.name = x]
                          ELSE IF s.l.mode = "name" THEN [s EXCEPT !.l.name = @ \o x] ELSE Wrong(s)
      [] x = "(" -> IF s.l.mode \in {"name", "named"} THEN [s EXCEPT !.l.mode = "args", !.l.sep = "open"] ELSE Wrong(s)
      [] x = ")" -> IF s.l.mode = "args" THEN Close(s) ELSE Wrong(s)
      [] Starts(x) -> IF s.l.mode = "args" THEN [s EXCEPT !.l.num = Feed(NoNumber, x)] ELSE Wrong(s)
      [] OTHER -> Wrong(s)
Character(s, x) ==
    IF ~s.l.ok THEN s
    ELSE IF s.l.num.mode = "none" THEN Between(s, x)
    ELSE LET a == Feed(s.l.num, x)
         IN IF a.mode # "fail" THEN [s EXCEPT !.l.num = a]
            ELSE LET t == Flush(s) IN IF t.l.ok THEN Between(t, x) ELSE t
End(s) == IF s.l.mode = "list" /\ s.l.sep # "comma" THEN s ELSE Wrong(s)

TransformNext == /\ k <= Len(c.d) /\ k' = k + 1
                 /\ LET s == [l |-> lex, f |-> map]
                        t == IF k = Len(c.d) THEN End(s) ELSE Character(s, c.d[k + 1])
                    IN lex' = t.l /\ map' = t.f
                 /\ UNCHANGED <<c, i>>

-----------------------------------------------------------------------------
Done == k = Len(c.d) + 1
Emit == Done => PrintT(ToJson([i |-> i, ok |-> lex.ok, map |-> map, image |-> Apply(map, V(3, -2))]))
AsMeant == Done => /\ lex.ok = c.valid
                   /\ c.valid => lex.log = c.ops
\* the last transform is applied first
RECURSIVE Through(_, _)
Through(log, p) == IF log = <<>> THEN p
                   ELSE Through(SubSeq(log, 1, Len(log) - 1), Apply(Meaning(log[Len(log)][1], log[Len(log)][2])[1], p))
Order == \A p \in {V(0, 0), V(1, 0), V(0, 1)} : Through(lex.log, p) = Apply(map, p)
=============================================================================
