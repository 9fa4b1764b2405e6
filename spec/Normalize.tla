--------------------------------- MODULE Normalize ---------------------------------
(* Normalization of the columns of a training set and a test set (C09), in integers.    *)
(* The range [mn, mx] and the results are in units of 1/4096, a column's values before  *)
(* in units of its own (a normalization does not depend on them).                       *)
EXTENDS Integers, Sequences
AbsV(x) == IF x < 0 THEN -x ELSE x
Least(q) == CHOOSE x \in {q[i] : i \in DOMAIN q} : \A i \in DOMAIN q : x <= q[i]
Greatest(q) == CHOOSE x \in {q[i] : i \in DOMAIN q} : \A i \in DOMAIN q : x >= q[i]
(* y is where the map of a column from [lo, hi] to [mn, mx] sends x *)
Maps(lo, hi, mn, mx, x, y, grain) == AbsV(y - mn) <= 1800000000 \div (hi - lo) /\ LET e == ((y - mn) * (hi - lo)) - ((x - lo) * (mx - mn)) IN
    AbsV(e) <= (hi - lo) * (grain + (AbsV(y - mn) \div 524288))
(* q: training column before, t: test column before; qa, ta: after *)
Column(q, t, qa, ta, mn, mx, grain) ==
    IF Least(q) = Greatest(q) THEN {} ELSE
    LET lo == Least(q) hi == Greatest(q) IN
    (IF \E i \in DOMAIN q : ~Maps(lo, hi, mn, mx, q[i], qa[i], grain) THEN {"a training column is not mapped onto the range by one affine map"} ELSE {})
    \cup (IF \E i \in DOMAIN t : ~Maps(lo, hi, mn, mx, t[i], ta[i], grain) THEN {"the test set does not get the map of the training set"} ELSE {})
    \cup (IF mn <= mx /\ (AbsV(Least(qa) - mn) > grain \/ AbsV(Greatest(qa) - mx) > grain) THEN {"a training column does not span the range"} ELSE {})
(* ranks before (p) and after (a) of all values of a column, training and test: equal values stay equal, the order stays *)
Ranks(p, a, up) == (IF \E i, j \in DOMAIN p : p[i] = p[j] /\ a[i] # a[j] THEN {"equal values of a column become different"} ELSE {})
    \cup (IF \E i, j \in DOMAIN p : p[i] < p[j] /\ (IF up THEN a[i] > a[j] ELSE a[i] < a[j]) THEN {"the order of the values of a column changes"} ELSE {})
====================================================================================
