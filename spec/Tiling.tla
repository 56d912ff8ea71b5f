------------------------------- MODULE Tiling -------------------------------
(* Paper sizes (ISO 216 and 269) and the tiling of a drawing on sheets of paper.

   Paper: a sheet of level n + 1 is half a sheet of level n. Its width and height are irrational: their squares are rational.
   Cutting a sheet in two is a transition of the system, from A0, B0 or C0.

   Tiling: a box, enlarged by a margin, is covered by tiles of the printable area of a sheet, row by row.
   Lengths of a tiling are integers (a tenth of millimetre).                                                    *)
EXTENDS Rat, FiniteSets, SequencesExt, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VF_IN)
VARIABLES i, c, letter, level, side, row, col, out
vars == <<i, c, letter, level, side, row, col, out>>

-----------------------------------------------------------------------------
\* Paper. side: the squares of the width and of the height of a sheet in portrait
Longest == [A |-> 1189, B |-> 1414, C |-> 1297]
PaperInit == /\ i = 0 /\ c = <<>> /\ row = 0 /\ col = 0 /\ out = <<>> /\ level = 0
             /\ \E x \in DOMAIN Longest : letter = x /\ side = <<R(Longest[x] * Longest[x], 2), I(Longest[x] * Longest[x])>>
\* the half of a sheet: its height is the width of the sheet, its width is half the height of the sheet
Cut == level < 10 /\ level' = level + 1 /\ side' = <<RMul(side[2], R(1, 4)), side[1]>> /\ UNCHANGED <<i, c, letter, row, col, out>>
EmitPaper == PrintT(ToJson([letter |-> letter, level |-> level, side |-> side]))
\* a half has the proportions of the whole
Similar == RMul(side[1], I(2)) = side[2]

-----------------------------------------------------------------------------
\* Tiling: c gives the box (x0, x1, y0, y1), the margin and the printable area (w, h) of a sheet
Left == c.box[1] - c.margin
Right == c.box[2] + c.margin
Bottom == c.box[3] - c.margin
Top == c.box[4] + c.margin
Ceil(n, d) == -((-n) \div d)
Columns == Ceil(Right - Left, c.w)
Rows == Ceil(Top - Bottom, c.h)
Tile(r, k) == <<Left + k * c.w, Left + (k + 1) * c.w, Bottom + r * c.h, Bottom + (r + 1) * c.h>>
\* the sheets are printed row by row: out is the sequence of <<tile, row, column>>
TileInit == i \in DOMAIN Cases /\ c = Cases[i] /\ letter = "" /\ level = 0 /\ side = <<>> /\ row = 0 /\ col = 0 /\ out = <<>>
PrintSheet == /\ row < Rows
         /\ out' = Append(out, <<Tile(row, col), row, col>>)
         /\ (IF col + 1 = Columns THEN col' = 0 /\ row' = row + 1 ELSE col' = col + 1 /\ row' = row)
         /\ UNCHANGED <<i, c, letter, level, side>>
Done == row = Rows
EmitTiles == Done => PrintT(ToJson([i |-> i, tiles |-> out, rows |-> Rows, columns |-> Columns]))

\* What tiles T (a sequence of <<tile, row, column>>, known with an error e) must satisfy
Covers(T, e) == LET X == { <<T[j][1][1], T[j][1][2]>> : j \in DOMAIN T } Y == { <<T[j][1][3], T[j][1][4]>> : j \in DOMAIN T }
                IN \A x \in {Left, Right - 1} \cup UNION { {a[1], a[2], a[2] + 2 * e} : a \in X } : \A y \in {Bottom, Top - 1} \cup UNION { {a[1], a[2], a[2] + 2 * e} : a \in Y } :
                     (x >= Left /\ x < Right /\ y >= Bottom /\ y < Top) =>
                       \E j \in DOMAIN T : LET t == T[j][1] IN t[1] - e <= x /\ x <= t[2] + e /\ t[3] - e <= y /\ y <= t[4] + e
Inside(t, s, e) == t[1] < s[2] - e /\ s[1] < t[2] - e /\ t[3] < s[4] - e /\ s[3] < t[4] - e
Apart(T, e) == \A j, l \in DOMAIN T : j < l => ~Inside(T[j][1], T[l][1], e)
Useful(T, e) == \A j \in DOMAIN T : LET t == T[j][1] IN t[1] < Right + e /\ t[3] < Top + e /\ t[2] > Left - e /\ t[4] > Bottom - e
Numbered(T) == \A j, l \in DOMAIN T : /\ (T[j][2] = T[l][2]) = (T[j][1][3] = T[l][1][3])
                                      /\ (T[j][3] = T[l][3]) = (T[j][1][1] = T[l][1][1])
                                      /\ (T[j][2] < T[l][2] => T[j][1][3] < T[l][1][3]) /\ (T[j][3] < T[l][3] => T[j][1][1] < T[l][1][1])
TileLaws == Done => Covers(out, 0) /\ Apart(out, 0) /\ Useful(out, 0) /\ Numbered(out) /\ Len(out) = Rows * Columns

\* Validation of tilings made by the code on real paper: c.tiles (rounded), known with an error of one unit
Recorded == Covers(c.tiles, 2) /\ Apart(c.tiles, 2) /\ Useful(c.tiles, 2)
            /\ \A j \in DOMAIN c.tiles : LET t == c.tiles[j][1] IN Abs(t[2] - t[1] - c.w) <= 2 /\ Abs(t[4] - t[3] - c.h) <= 2
EmitVerdict == PrintT(ToJson([i |-> i, ok |-> Recorded]))
Stay == UNCHANGED vars
=============================================================================
