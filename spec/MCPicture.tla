---------------------------------- MODULE MCPicture ---------------------------------
(* Every small picture: the library's way of drawing tiles (nested loops over pixels, rows *)
(* and columns of tiles, values in order) shows every value exactly once, where Picture    *)
(* says, in a picture without an empty row of tiles; other ways do not.                    *)
EXTENDS Picture, TLC
CONSTANTS MaxC, MaxX, Variant
VARIABLE s
Init == s \in {<<c, x, y>> : c \in 1..MaxC, x \in 1..MaxX, y \in 1..MaxX}
Next == FALSE /\ s' = s
Spec == Init /\ [][Next]_s
Ix(k) == 0..k - 1
C == s[1]
X == s[2]
Y == s[3]
(* the library: as many columns as the rounded root, as many rows, one less if the last would be empty *)
FX == CeilRoot(C)
FY == IF Variant # "square" /\ C <= (FX * FX) - FX THEN FX - 1 ELSE FX
(* the loops (j, i, ty, tx): a value is drawn when its tile exists; its index counts the values drawn before *)
Drawn == {p \in (Ix(Y) \X Ix(X)) \X (Ix(FY) \X Ix(FX)) : (p[2][1] * FX) + p[2][2] < C}
Rank(p) == IF Variant = "columns" THEN (((p[1][1] * X) + p[1][2]) * C) + Cardinality({q \in Drawn : q[1] = p[1] /\ (q[2][2] < p[2][2] \/ (q[2][2] = p[2][2] /\ q[2][1] < p[2][1]))})
           ELSE Cardinality({q \in Drawn : q[1][1] < p[1][1] \/ (q[1][1] = p[1][1] /\ (q[1][2] < p[1][2] \/ (q[1][2] = p[1][2] /\ (q[2][1] < p[2][1] \/ (q[2][1] = p[2][1] /\ q[2][2] < p[2][2])))))})
Spot(p) == <<(p[2][2] * (X + 1)) + p[1][2], (p[2][1] * (Y + 1)) + p[1][1]>>
P == TilesPicture(s)
Size == P.w = ((X + 1) * FX) - 1 /\ P.h = ((Y + 1) * FY) - 1
Places == \A p \in Drawn : Spot(p)[1] \in Ix(P.w) /\ Spot(p)[2] \in Ix(P.h) /\ TileAt(s, Spot(p)[1], Spot(p)[2]) = Rank(p)
Once == \A v \in Ix(C * X * Y) : Cardinality({p \in Ix(P.w) \X Ix(P.h) : TileAt(s, p[1], p[2]) = v}) = 1
OnlyThose == \A x \in Ix(P.w), y \in Ix(P.h) : TileAt(s, x, y) # None => TileAt(s, x, y) \in Ix(C * X * Y)
NoEmptyRow == \E x \in Ix(P.w) : TileAt(s, x, P.h - 1) # None
DatumOnce == C \in {1, 3} => \A v \in Ix(C * X * Y) : Cardinality({p \in Ix(X) \X Ix(Y) \X Ix(C) : DatumAt(s, p[1], p[2], p[3]) = v}) = 1
=====================================================================================
