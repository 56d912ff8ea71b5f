------------------------------- MODULE Affine -------------------------------
(* Affine maps of the plane: [m: <<a, b, c, d>>, t: <<e, f>>] is (x, y) -> (a x + b y + e, c x + d y + f).   *)
EXTENDS Vec

Map(a, b, c, d, e, f) == [m |-> <<a, b, c, d>>, t |-> <<e, f>>]
Id == Map(I(1), I(0), I(0), I(1), I(0), I(0))
Apply(f, p) == <<RAdd(RAdd(RMul(f.m[1], p[1]), RMul(f.m[2], p[2])), f.t[1]),
                 RAdd(RAdd(RMul(f.m[3], p[1]), RMul(f.m[4], p[2])), f.t[2])>>
ApplyLinear(f, p) == Apply([f EXCEPT !.t = Zero2], p)
\* f after g
Compose(f, g) == LET i == ApplyLinear(f, <<g.m[1], g.m[3]>>)
                     j == ApplyLinear(f, <<g.m[2], g.m[4]>>)
                     o == Apply(f, g.t)
                 IN Map(i[1], j[1], i[2], j[2], o[1], o[2])
Det(f) == RSub(RMul(f.m[1], f.m[4]), RMul(f.m[2], f.m[3]))

Rotation(c, s) == Map(c, RNeg(s), s, c, I(0), I(0))
Scale(k, l) == Map(k, I(0), I(0), l, I(0), I(0))
Translation(v) == [Id EXCEPT !.t = v]
Screen(h) == Map(I(1), I(0), I(0), I(-1), I(0), h)
RotationAt(v, c, s) == Compose(Translation(v), Compose(Rotation(c, s), Translation(VNeg(v))))
=============================================================================
