-------------------------------- MODULE MCNormalize --------------------------------
(* The algorithm as it is written: one pass over a column for its extrema (a value is   *)
(* compared with the maximum only if it is no new minimum), then both sets are mapped;  *)
(* for every small column of the training and the test set.  Wrong: realistic mistakes. *)
EXTENDS Normalize, TLC
CONSTANTS V, NTrain, NTest, Wrong
VARIABLES q, t, i, lo, hi
vars == <<q, t, i, lo, hi>>
Vals == {v - V : v \in 0..2 * V}
First(c) == IF Wrong = "zero" /\ c < 0 THEN 0 ELSE c
Init == /\ q \in UNION {[1..n -> Vals] : n \in 1..NTrain} /\ t \in UNION {[1..n -> Vals] : n \in 0..NTest}
        /\ i = 2 /\ lo = q[1] /\ hi = First(q[1])
Scan == /\ i <= Len(q) /\ i' = i + 1
        /\ lo' = (IF q[i] < lo THEN q[i] ELSE lo)
        /\ hi' = (IF Wrong = "first" THEN hi ELSE IF ~(q[i] < lo) /\ q[i] > hi THEN q[i] ELSE hi)
        /\ UNCHANGED <<q, t>>
Spec == Init /\ [][Scan]_vars
(* results as multiples of a range of 5040 (divisible by every small extent) *)
To(l, h, x) == IF h = l THEN x ELSE ((x - l) * 5040) \div (h - l)
After(c) == [k \in DOMAIN c |-> To(lo, hi, c[k])]
AfterTest == IF Wrong = "own" /\ Len(t) > 0 THEN [k \in DOMAIN t |-> To(Least(t), Greatest(t), t[k])] ELSE After(t)
Right == i <= Len(q) \/ (Column(q, t, After(q), AfterTest, 0, 5040, 1) = {} /\ Ranks(q \o t, After(q) \o AfterTest, TRUE) = {})
====================================================================================
