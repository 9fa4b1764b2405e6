--------------------------------- MODULE MCSoftmax ---------------------------------
(* For raw outputs that are multiples of ln 2, results have the exact values           *)
(* 2^r / sum(2^r).  Those satisfy Softmax, adding a constant changes nothing, a raw     *)
(* output larger by ln 2 gets twice the value; and results made with a wrong base,      *)
(* without the division, or with two of them swapped do not.                            *)
EXTENDS Softmax, FiniteSets, TLC, Functions
CONSTANTS N, K, Wrong
VARIABLE r
Pow(k) == 2 ^ k
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Range1(f) == {f[i] : i \in DOMAIN f}
Rank(f) == [i \in DOMAIN f |-> Cardinality({v \in Range1(f) : v < f[i]})]
Weight(f) == [i \in DOMAIN f |-> Pow(f[i] - MinOf(Range1(f)))]
Total(f) == FoldFunction(+, 0, Weight(f))
Exact(f) == [neg |-> FALSE, sum |-> FoldFunction(+, 0, [i \in DOMAIN f |-> (Weight(f)[i] * 1000000) \div Total(f)]), rr |-> Rank(f), ro |-> Rank(Weight(f)),
             d |-> [i \in DOMAIN f |-> 1000 * (f[i] - MaxOf(Range1(f)))], q |-> [i \in DOMAIN f |-> 1000 * (f[i] - MaxOf(Range1(f)))]]
Bad(f) == CASE Wrong = "base" -> [Exact(f) EXCEPT !.q = [i \in DOMAIN f |-> (@[i] * 10) \div 7]]
            [] Wrong = "undivided" -> [Exact(f) EXCEPT !.sum = (1000000 * Total(f)) \div Pow(MaxOf(Range1(f)) - MinOf(Range1(f)))]
            [] Wrong = "swapped" /\ Len(f) > 1 -> [Exact(f) EXCEPT !.ro = [@ EXCEPT ![1] = Exact(f).ro[2], ![2] = Exact(f).ro[1]], !.q = [@ EXCEPT ![1] = Exact(f).q[2], ![2] = Exact(f).q[1]]]
            [] OTHER -> Exact(f)
Init == r \in UNION {[1..n -> 0..K] : n \in 1..N}
Next == \E i \in DOMAIN r : r[i] < K /\ r' = [r EXCEPT ![i] = @ + 1]
Spec == Init /\ [][Next]_r
Accepts == Faults(Bad(r)) = {}
Shift == LET t == [i \in DOMAIN r |-> r[i] + 5] IN Exact(t).q = Exact(r).q
Twice == \A i, j \in DOMAIN r : r[i] = r[j] + 1 => Weight(r)[i] = 2 * Weight(r)[j]
====================================================================================
