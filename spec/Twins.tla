------------------------------------ MODULE Twins ------------------------------------
(* Networks as values (C13 C14 C15 C21).  A network is an unknown deterministic machine; *)
(* all that is known of it is its history.  Three parts of it are told apart:            *)
(*   p  what decides results and learning: the parameters, and the state of the training *)
(*   s  the statistics                                                                   *)
(*   h  the complete history, which decides equality                                     *)
(* Each is a number that stands for a history: the same operation on the same number     *)
(* yields the same number, by whichever network it is performed.  A copy, or a network   *)
(* loaded from a file, is the same three numbers under another name.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Predicting == {"predict", "cluster"}
Judging == {"evaluate", "evalsave"}
Learning == {"once", "train", "autotrain", "setw", "setlr", "setmom", "restore", "async"}
(* v: [p, s, h]; an operation is [k, x, y]: kind, what decides its effect, and whatever else distinguishes it *)
Key(part, v, op, rec) ==
    CASE part = "p" -> IF op.k \in Learning \/ (rec /\ op.k \in Predicting \cup Judging) THEN <<"p", v.p, op.k, op.x>> ELSE <<"same", v.p>>
      [] part = "s" -> IF op.k \in Judging THEN <<"s", v.p, v.s, "evaluate", op.x>> ELSE IF op.k \in {"train", "autotrain", "async"} THEN <<"s", v.p, v.s, op.k, op.x>> ELSE <<"same", v.s>>
      [] part = "h" -> <<"h", v.h, op.k, op.x, op.y>>
Part(part, v) == CASE part = "p" -> v.p [] part = "s" -> v.s [] part = "h" -> v.h
(* tab: the numbers given so far; next: the next one.  det: the operation has no random effect. *)
Number(tab, next, part, v, op, rec, det) ==
    LET k == Key(part, v, op, rec) IN
    IF k[1] = "same" THEN k[2] ELSE IF det /\ k \in DOMAIN tab THEN tab[k] ELSE next + (CASE part = "p" -> 0 [] part = "s" -> 1 [] part = "h" -> 2)
After3(tab, next, v, op, rec, det) == [p |-> Number(tab, next, "p", v, op, rec, det), s |-> Number(tab, next, "s", v, op, rec, det), h |-> Number(tab, next, "h", v, op, rec, det)]
Learned(tab, next, v, op, rec, det) ==
    LET w == After3(tab, next, v, op, rec, det)
        new == {part \in {"p", "s", "h"} : Part(part, w) >= next}
    IN IF ~det THEN tab ELSE [k \in {Key(part, v, op, rec) : part \in new} |-> LET part == CHOOSE q \in new : Key(q, v, op, rec) = k IN Part(part, w)] @@ tab
(* Equality: forced for the same history, excluded for different descriptions or parameters. *)
MustEqual(v1, v2) == v1.h = v2.h
(* Networks that compare equal go on alike: from then on one number stands for what decides their results. *)
Alike(v1, v2) == [v2 EXCEPT !.p = v1.p]
======================================================================================
