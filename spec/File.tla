----------------------------------- MODULE File -----------------------------------
(* What the file at a path may hold while networks are saved to it, and what loading  *)
(* it may give (C27).  A version is the value of one saved network, 0 is "no file",   *)
(* and may is the set of versions the file may hold: one, except after a save whose   *)
(* process died, when it is the old one or the new one, complete.                     *)
EXTENDS Integers
FileInit == {0}
(* a save of version v: done; refused, the caller was told; or died half-way *)
Saved(may, v) == {v}
Refused(may, v) == may
Died(may, v) == may \cup {v}
(* a save may be refused only when something prevents it *)
MayRefuse(prevented) == prevented
(* loading: a version, or 0, an error *)
LoadOK(may, got) == got \in may
(* a file cut by `left` characters, of which only the final new line may be missing without loss *)
CutOK(v, left, got) == IF left = 0 THEN got = v ELSE got \in {0, v}
(* anything else is no network *)
JunkOK(got) == got = 0
====================================================================================
