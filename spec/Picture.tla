---------------------------------- MODULE Picture -----------------------------------
(* The pictures of data and of what filter layers make of them (C30).  A picture is        *)
(* [w, h] and, for every pixel, the index of the value it shows, or None.                  *)
EXTENDS Integers, Sequences, FiniteSets
None == -1
RECURSIVE RootFrom(_, _)
RootFrom(n, r) == IF r * r >= n THEN r ELSE RootFrom(n, r + 1)
CeilRoot(n) == RootFrom(n, 0)
CeilDivide(a, b) == (a + b - 1) \div b
(* a datum of shape <<c, x, y>>, c = 1 (grey) or 3 (red, green, blue); channel of a pixel: 0..2 *)
DatumPicture(shape) == [w |-> shape[2], h |-> shape[3]]
DatumAt(shape, x, y, c) == (((y * shape[2]) + x) * shape[1]) + (IF shape[1] = 1 THEN 0 ELSE c)
(* the outputs of a layer of shape <<c, x, y>>: one tile per filter, in rows, one black line between tiles *)
Columns(shape) == CeilRoot(shape[1])
Rows(shape) == CeilDivide(shape[1], Columns(shape))
TilesPicture(shape) == [w |-> ((shape[2] + 1) * Columns(shape)) - 1, h |-> ((shape[3] + 1) * Rows(shape)) - 1]
TileAt(shape, x, y) ==
    LET tx == x \div (shape[2] + 1) ty == y \div (shape[3] + 1) i == x % (shape[2] + 1) j == y % (shape[3] + 1) f == (ty * Columns(shape)) + tx
    IN IF i = shape[2] \/ j = shape[3] \/ f >= shape[1] THEN None ELSE (((j * shape[2]) + i) * shape[1]) + f
=====================================================================================
