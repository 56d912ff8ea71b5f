------------------------------ MODULE SvgPath ------------------------------
(* The data of an SVG path, read character after character: instructions, implicit repetitions, numbers without
   separators, flags; each complete instruction draws on the path.

   Case: d (the characters), ops (the instructions meant by the writer), valid.  k is the position in d.            *)
EXTENDS Paths, Lexer
VARIABLE lex
svars == <<c, i, k, path, lex>>

NumberOfArgs(x) == CASE x \in {"m", "l"} -> 2 [] x \in {"h", "v"} -> 1 [] x = "c" -> 6 [] x = "q" -> 4 [] x = "a" -> 7 [] x = "z" -> 0
Upper == [m |-> "M", l |-> "L", h |-> "H", v |-> "V", c |-> "C", q |-> "Q", a |-> "A", z |-> "Z"]
Kinds == DOMAIN Upper
IsInstruction(x) == x \in Kinds \/ \E y \in Kinds : Upper[y] = x
Kind(x) == IF x \in Kinds THEN x ELSE CHOOSE y \in Kinds : Upper[y] = x

\* sep: what was read last; count: instructions executed since the last letter; drawn: the path exists
SvgInit == /\ i \in DOMAIN Cases /\ c = Cases[i] /\ k = 0 /\ path = Empty(Zero2)
           /\ lex = [num |-> NoNumber, cmd |-> "", args |-> <<>>, count |-> 0, sep |-> "", ok |-> TRUE, drawn |-> FALSE, log |-> <<>>]

-----------------------------------------------------------------------------
\* Instructions.  A state is [l: lexer, x: path]
Rotation4 == << <<0, V(1, 0)>>, <<90, V(0, 1)>>, <<180, V(-1, 0)>>, <<270, V(0, -1)>> >>
QuarterTurn(a) == LET n == a[1] % 360 IN Rotation4[(n \div 90) + 1][2]
\* the elliptical arc from p0 to p1 (implementation notes of SVG): scaled radii, center and directions
SvgArc(p0, rx0, ry0, angle, large, sweep, p1) ==
    LET rot == QuarterTurn(angle)
        m0 == RotateCS(VScale(Half, VSub(p0, p1)), rot[1], RNeg(rot[2]))
        n0 == <<RDiv(m0[1], rx0), RDiv(m0[2], ry0)>>
        l == Sq(n0)
        big == RLt(I(1), l)
        f == IF big THEN RSqrt(l) ELSE I(1)
        rx == RMul(f, rx0) ry == RMul(f, ry0)
        n == VScale(RInv(f), n0)
        h == IF big THEN I(0) ELSE RSqrt(RDiv(RSub(I(1), l), l))
        o == VScale(IF large # sweep THEN h ELSE RNeg(h), <<n[2], RNeg(n[1])>>)
        from == VSub(n, o) to == VSub(VNeg(n), o)
    IN <<"arc", rx, ry, rot, IF sweep THEN from ELSE to, IF sweep THEN to ELSE from, sweep>>
Draw(x, cmd, a) ==
    LET abs == cmd \notin Kinds
        v(j) == <<a[j], a[j + 1]>>
        r0 == I(0)
    IN CASE Kind(cmd) = "m" -> Empty(v(1))
         [] Kind(cmd) = "l" -> Command(x, <<"line", v(1), abs, r0>>)
         [] cmd = "h" -> Command(x, <<"line", <<a[1], I(0)>>, FALSE, r0>>)
         [] cmd = "H" -> Command(x, <<"absolute_x", a[1], r0>>)
         [] cmd = "v" -> Command(x, <<"line", <<I(0), a[1]>>, FALSE, r0>>)
         [] cmd = "V" -> Command(x, <<"absolute_y", a[1], r0>>)
         [] Kind(cmd) = "q" -> Command(x, <<"quadratic", v(1), v(3), abs>>)
         [] Kind(cmd) = "c" -> Command(x, <<"cubic", v(1), v(3), v(5), abs>>)
         [] Kind(cmd) = "z" -> Command(x, <<"close", r0, r0>>)
         [] Kind(cmd) = "a" ->
                LET p == Absolute(x, v(6), abs) IN
                IF a[1] = r0 \/ a[2] = r0 THEN Command(x, <<"line", p, TRUE, r0>>)
                ELSE Command(x, SvgArc(Here(x), RAbs(a[1]), RAbs(a[2]), a[3], a[4] = I(1), a[5] = I(1), p))
Wrong(s) == [s EXCEPT !.l.ok = FALSE]
\* after a move, the instruction is a line
Execute(s) ==
    LET l == s.l IN
    [l |-> [l EXCEPT !.args = <<>>, !.count = @ + 1, !.drawn = TRUE, !.log = Append(@, <<l.cmd, l.args>>),
                     !.cmd = CASE l.cmd = "m" -> "l" [] l.cmd = "M" -> "L" [] OTHER -> l.cmd],
     x |-> Draw(s.x, l.cmd, l.args)]
Push(s, value) ==
    LET l == s.l t == [s EXCEPT !.l.args = Append(@, value), !.l.num = NoNumber, !.l.sep = "number"]
    IN IF l.cmd = "" THEN Wrong(s)
       ELSE IF NumberOfArgs(Kind(l.cmd)) = 0 THEN Wrong(s)
       ELSE IF Len(t.l.args) = NumberOfArgs(Kind(l.cmd)) THEN Execute(t) ELSE t
FlagExpected(l) == l.cmd \in {"a", "A"} /\ Len(l.args) \in {3, 4}
Instructed(l) == l.cmd = "" \/ (l.args = <<>> /\ l.count > 0)
Letter(s, x) ==
    LET l == s.l IN
    IF ~Instructed(l) \/ l.sep = "comma" \/ (~l.drawn /\ Kind(x) # "m") THEN Wrong(s)
    ELSE LET t == [s EXCEPT !.l.cmd = x, !.l.count = 0, !.l.sep = "letter"]
         IN IF Kind(x) = "z" THEN Execute(t) ELSE t
Between(s, x) ==
    CASE IsSpace(x) -> s
      [] x = "," -> IF s.l.sep = "number" THEN [s EXCEPT !.l.sep = "comma"] ELSE Wrong(s)
      [] Starts(x) -> IF ~FlagExpected(s.l) THEN [s EXCEPT !.l.num = Feed(NoNumber, x)]
                      ELSE IF x \in {"0", "1"} THEN Push(s, I(Digit(x))) ELSE Wrong(s)
      [] IsInstruction(x) -> Letter(s, x)
      [] OTHER -> Wrong(s)
Flush(s) == IF s.l.num.mode = "none" THEN s ELSE IF Complete(s.l.num) THEN Push(s, Value(s.l.num)) ELSE Wrong(s)
Character(s, x) ==
    IF ~s.l.ok THEN s
    ELSE IF s.l.num.mode = "none" THEN Between(s, x)
    ELSE LET a == Feed(s.l.num, x)
         IN IF a.mode # "fail" THEN [s EXCEPT !.l.num = a]
            ELSE LET t == Flush(s) IN IF t.l.ok THEN Between(t, x) ELSE t
End(s) == IF ~s.l.ok THEN s
          ELSE LET t == Flush(s) IN IF t.l.ok /\ Instructed(t.l) /\ t.l.sep # "comma" THEN t ELSE Wrong(t)

SvgNext == /\ k <= Len(c.d) /\ k' = k + 1
           /\ LET s == [l |-> lex, x |-> path]
                  t == IF k = Len(c.d) THEN End(s) ELSE Character(s, c.d[k + 1])
              IN lex' = t.l /\ path' = t.x
           /\ UNCHANGED <<c, i>>

-----------------------------------------------------------------------------
Done == k = Len(c.d) + 1
SvgEmit == Done => PrintT(ToJson([i |-> i, ok |-> lex.ok, drawn |-> lex.drawn, path |-> PathObs(path)]))
\* the instructions are those of the writer
Meaning == Done => /\ lex.ok = c.valid
                   /\ c.valid => lex.log = c.ops
Arity == \A j \in DOMAIN lex.log : Len(lex.log[j][2]) = NumberOfArgs(Kind(lex.log[j][1]))
\* what was read is never changed by the following characters
Prefix == [][SubSeq(lex'.log, 1, Len(lex.log)) = lex.log /\ (~lex.ok => ~lex'.ok)]_svars
=============================================================================
