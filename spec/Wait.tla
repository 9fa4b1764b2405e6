---------------------------------- MODULE Wait ----------------------------------
(* Stop criteria (C04): the meaning of an expression is the meaning of its tree,   *)
(* whatever structure the implementation folds it into.                            *)
(* An observation gives the epochs completed (-1 before the first one started),    *)
(* the exact accuracy well/n and mean absolute error abs/(4 n) of the latest       *)
(* evaluation (n = 0 if none), and the elapsed milliseconds.                       *)
EXTENDS Integers, Sequences, FiniteSets


RECURSIVE Over(_, _)
Over(w, o) ==
    CASE w.k = "never" -> FALSE
      [] w.k = "ep"  -> o.ep >= w.v                                \* epochs completed
      [] w.k = "acc" -> o.n > 0 /\ 8 * o.well >= w.v * o.n         \* threshold w.v / 8
      [] w.k = "mae" -> o.n > 0 /\ o.abs <= w.v * o.n              \* threshold w.v / 4
      [] w.k = "ms"  -> o.ms >= w.v
      [] w.k = "and" -> Over(w.l, o) /\ Over(w.r, o)
      [] w.k = "or"  -> Over(w.l, o) \/ Over(w.r, o)

RECURSIVE HasOp(_, _)
HasOp(w, k) == w.k = k \/ (w.k \in {"and", "or"} /\ (HasOp(w.l, k) \/ HasOp(w.r, k)))
(* Mixing conjunctions and disjunctions is refused. *)
Mixed(w) == HasOp(w, "and") /\ HasOp(w, "or")

(* An independent definition: the flat set of elementary criteria, all or any of which must hold. *)
RECURSIVE Leaves(_)
Leaves(w) == IF w.k \in {"and", "or"} THEN Leaves(w.l) \cup Leaves(w.r) ELSE {w}
FlatOver(w, o) == IF HasOp(w, "and") THEN \A e \in Leaves(w) : Over(e, o)
                  ELSE \E e \in Leaves(w) : Over(e, o)
=================================================================================
