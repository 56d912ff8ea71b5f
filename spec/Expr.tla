-------------------------------- MODULE Expr --------------------------------
(* Arithmetic expressions and their exact values.                                                *)
(*   [k: "num", v: rational]   [k: "ref", n: name]   [k: "add"|"sub"|"mul"|"div", a, b]          *)
(*   [k: "neg"|"sq", a]        [k: "line", p, q]  [k: "angle", p, q]  [k: "cur"]                 *)
(* An expression comes from JSON as well as from the model.                                      *)
EXTENDS Vec

Undefined == <<0, 0>>     \* not a rational

RECURSIVE Refs(_)
Refs(e) == CASE e.k = "ref" -> {e.n}
             [] e.k \in {"add", "sub", "mul", "div"} -> Refs(e.a) \cup Refs(e.b)
             [] e.k \in {"neg", "sq"} -> Refs(e.a)
             [] OTHER -> {}

\* points used by the functions of lines
RECURSIVE PointRefs(_)
PointRefs(e) == CASE e.k \in {"line", "angle"} -> {e.p, e.q}
                  [] e.k \in {"add", "sub", "mul", "div"} -> PointRefs(e.a) \cup PointRefs(e.b)
                  [] e.k \in {"neg", "sq"} -> PointRefs(e.a)
                  [] OTHER -> {}

Bin(k, x, y) == IF x = Undefined \/ y = Undefined THEN Undefined
                ELSE CASE k = "add" -> RAdd(x, y)
                       [] k = "sub" -> RSub(x, y)
                       [] k = "mul" -> RMul(x, y)
                       [] k = "div" -> IF y[1] = 0 THEN Undefined ELSE RDiv(x, y)

\* direction of a vector whose angle is a multiple of 45 degrees, in ]-180, 180]
AngleOf(v) == LET dx == v[1] dy == v[2] sx == RSign(dx) sy == RSign(dy)
              IN CASE sy = 0 /\ sx > 0 -> I(0)
                   [] sy = 0 /\ sx < 0 -> I(180)
                   [] sx = 0 /\ sy > 0 -> I(90)
                   [] sx = 0 /\ sy < 0 -> I(-90)
                   [] dx = dy /\ sx > 0 -> I(45)
                   [] dx = dy /\ sx < 0 -> I(-135)
                   [] dx = RNeg(dy) /\ sx > 0 -> I(-45)
                   [] dx = RNeg(dy) /\ sx < 0 -> I(135)
                   [] OTHER -> Undefined

\* env: [ref |-> name -> rational, point |-> name -> vector, cur |-> rational]
RECURSIVE Value(_, _)
Value(e, env) ==
    CASE e.k = "num" -> e.v
      [] e.k = "ref" -> IF e.n \in DOMAIN env.ref THEN env.ref[e.n] ELSE Undefined
      [] e.k \in {"add", "sub", "mul", "div"} -> Bin(e.k, Value(e.a, env), Value(e.b, env))
      [] e.k = "neg" -> LET x == Value(e.a, env) IN IF x = Undefined THEN x ELSE RNeg(x)
      [] e.k = "sq" -> LET x == Value(e.a, env) IN IF x = Undefined THEN x ELSE RMul(x, x)
      [] e.k \in {"line", "angle"} ->
             IF {e.p, e.q} \subseteq DOMAIN env.point
             THEN LET v == VSub(env.point[e.q], env.point[e.p])
                  IN IF e.k = "angle" THEN AngleOf(v)
                     ELSE IF RIsSquare(Sq(v)) THEN RSqrt(Sq(v)) ELSE Undefined
             ELSE Undefined
      [] e.k = "cur" -> env.cur

NoPoints == [x \in {} |-> Zero2]
=============================================================================
