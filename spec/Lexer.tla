------------------------------- MODULE Lexer -------------------------------
(* Numbers of the SVG grammar, read character after character.

   [mode, neg, n, f, eneg, e]: the number is (-1)^neg n 10^((-1)^eneg e - f), mode is the state of the automaton.   *)
EXTENDS Rat

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(x) == \E d \in DOMAIN Digits : Digits[d] = x
Digit(x) == (CHOOSE d \in DOMAIN Digits : Digits[d] = x) - 1
IsSpace(x) == x \in {" ", "\t", "\n", "\r"}
IsSign(x) == x \in {"+", "-"}

NoNumber == [mode |-> "none", neg |-> FALSE, n |-> 0, f |-> 0, eneg |-> FALSE, e |-> 0]
Starts(x) == IsDigit(x) \/ IsSign(x) \/ x = "."
Fail == [NoNumber EXCEPT !.mode = "fail"]
\* one more character, Fail when it is not a character of this number
Feed(a, x) ==
    CASE a.mode \in {"none", "sign", "int"} /\ IsDigit(x) -> [a EXCEPT !.mode = "int", !.n = 10 * @ + Digit(x)]
      [] a.mode = "none" /\ IsSign(x) -> [a EXCEPT !.mode = "sign", !.neg = (x = "-")]
      [] a.mode \in {"none", "sign"} /\ x = "." -> [a EXCEPT !.mode = "dot"]
      [] a.mode = "int" /\ x = "." -> [a EXCEPT !.mode = "frac"]
      [] a.mode \in {"dot", "frac"} /\ IsDigit(x) -> [a EXCEPT !.mode = "frac", !.n = 10 * @ + Digit(x), !.f = @ + 1]
      [] a.mode \in {"int", "frac"} /\ x \in {"e", "E"} -> [a EXCEPT !.mode = "e"]
      [] a.mode = "e" /\ IsSign(x) -> [a EXCEPT !.mode = "esign", !.eneg = (x = "-")]
      [] a.mode \in {"e", "esign", "exp"} /\ IsDigit(x) -> [a EXCEPT !.mode = "exp", !.e = 10 * @ + Digit(x)]
      [] OTHER -> Fail
Complete(a) == a.mode \in {"int", "frac", "exp"}
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
Value(a) == LET p == (IF a.eneg THEN -a.e ELSE a.e) - a.f
                n == IF a.neg THEN -a.n ELSE a.n
            IN IF p >= 0 THEN I(n * Pow10(p)) ELSE R(n, Pow10(-p))
=============================================================================
