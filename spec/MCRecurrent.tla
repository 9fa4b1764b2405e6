-------------------------------- MODULE MCRecurrent ---------------------------------
(* C19 on the specification: two units with the same parameters and different pasts, a   *)
(* reset, then the same inputs: the same outputs; and without the reset the past counts  *)
(* (the unit does remember).                                                             *)
EXTENDS Recurrent
CONSTANTS DEV, Values, Weights, Pasts, Kinds
VARIABLES kind, act, v, a, b, clean, n
vars == <<kind, act, v, a, b, clean, n>>
NoDev == {}
AsBuilt == {"rec-reset", "gru-reset"}
Values1 == {4096, -2048}
Values2 == {4096, -2048, 512}
Weights1 == {-3072, 0, 2048}
Weights2 == {-3072, 0, 2048, 5000}
Pasts1 == {0, 2048, -6144}
Init == /\ kind \in Kinds /\ act \in (IF kind = "gru" THEN {"tanh"} ELSE {"id", "relu", "tanh", "sig"})
        /\ v \in {IF kind = "gru" THEN <<w[1], w[2], w[3], w[3], w[1], w[2], w[2], w[2], w[1]>> ELSE w : w \in [1..3 -> Weights]}
        /\ a \in {[Fresh(Gates(kind)) EXCEPT !.o = o] : o \in Pasts} /\ b \in {[Fresh(Gates(kind)) EXCEPT !.o = o] : o \in Pasts}
        /\ clean = FALSE /\ n = 0
Out(m, x, r) == Unit(DEV, kind, act, v, <<x>>, m, r)
Next == /\ n < 4 /\ n' = n + 1
        /\ \E x \in Values, r \in BOOLEAN :
              LET p == Out(a, x, r) q == Out(b, x, r) IN
              /\ a' = [a EXCEPT !.o = p.o, !.s = p.s] /\ b' = [b EXCEPT !.o = q.o, !.s = q.s]
              /\ clean' = (clean \/ r)
        /\ UNCHANGED <<kind, act, v>>
Spec == Init /\ [][Next]_vars
Forgets == clean => a.o = b.o
(* expected to be violated: an output may depend on the past when there was no reset *)
NeverRemembers == n > 0 => a.o = b.o
=====================================================================================
