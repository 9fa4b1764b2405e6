---------------------------------- MODULE Softmax ----------------------------------
(* What a softmax makes of the raw outputs of a layer (C24).  Raw outputs and results   *)
(* are known by what can be compared exactly or in integers:                            *)
(*   rr, ro: dense ranks of the raw outputs and of the results;                         *)
(*   d:  log2(e) * (raw output - largest raw output), in 1/1000;                        *)
(*   q:  log2(result / result of the largest), in 1/1000 (-Low and below: zero);        *)
(*   sum: sum of the results in 10^-6; neg: is a result negative or not a number.       *)
EXTENDS Integers, Sequences
Low == 120000          \* results below 2^-120 of the largest may vanish
Dist(o) == (IF o.neg THEN {"a result is negative or not a number"} ELSE {})
    \cup (IF o.sum < 1000000 - 20 - Len(o.rr) \/ o.sum > 1000000 + 20 + Len(o.rr) THEN {"the results do not sum to one"} ELSE {})
Order(o) == (IF \E i, j \in DOMAIN o.rr : o.rr[i] = o.rr[j] /\ o.ro[i] # o.ro[j] THEN {"equal raw outputs get different results"} ELSE {})
    \cup (IF \E i, j \in DOMAIN o.rr : o.rr[i] < o.rr[j] /\ o.ro[i] > o.ro[j] THEN {"the order of the raw outputs is not kept"} ELSE {})
Dev(a) == 3 + (a \div 2000)
Ratio(o) == IF \E i \in DOMAIN o.d :
                 IF o.d[i] < -Low THEN o.q[i] > 1000 - Low
                 ELSE o.d[i] - o.q[i] > Dev(-o.d[i]) \/ o.q[i] - o.d[i] > Dev(-o.d[i])
            THEN {"a result is not in the proportion of its raw output"} ELSE {}
Faults(o) == Dist(o) \cup Order(o) \cup Ratio(o)
====================================================================================
