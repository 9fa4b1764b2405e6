--------------------------------- MODULE DataSet ---------------------------------
(* Which data sets are built and what they hand back (C28).                  *)
(* A description d: problem, nature, r (recurrences), dim (2 or 3), one (one set used *)
(* for training and testing), and for each of the sets tr and te: lens (dim 3: the     *)
(* lengths of the sequences), ins (the number of values of every datum, in order),     *)
(* labs (the number of values of every label vector).                                  *)
EXTENDS Integers, Sequences
AllEqual(q, n) == \A i \in 1..Len(q) : q[i] = n
SetOK(x, nin, nlab) == Len(x.ins) = Len(x.labs) /\ AllEqual(x.ins, nin) /\ AllEqual(x.labs, nlab)
WellFormed(d) ==
    /\ Len(d.tr.ins) > 0 /\ Len(d.tr.labs) > 0
    /\ SetOK(d.tr, d.tr.ins[1], d.tr.labs[1]) /\ SetOK(d.te, d.tr.ins[1], d.tr.labs[1])
    /\ (d.problem = "classification" => d.tr.labs[1] >= 2)
    /\ (d.dim = 3 <=> d.nature = "sequential")
    /\ (d.dim = 3 => \A x \in {d.tr, d.te} : \A i \in 1..Len(x.lens) : x.lens[i] > 0)
    /\ (d.nature = "timeSeries" => d.r >= 1)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Total(lens) == Sum(lens)
Starts(lens) == {1 + Sum(SubSeq(lens, 1, i - 1)) : i \in 1..Len(lens)}
Ends(lens) == {Sum(SubSeq(lens, 1, i)) : i \in 1..Len(lens)}
(* marks of the data, as given (before a shuffle, after an unshuffle) *)
TrainFirst(d, n) == [i \in 1..n |-> CASE d.nature = "nonTemporal" -> TRUE [] d.nature = "sequential" -> i \in Starts(d.tr.lens) [] OTHER -> i = 1]
TestFirst(d, n) == [i \in 1..n |-> CASE d.nature = "nonTemporal" -> FALSE [] d.nature = "sequential" -> i \in Starts(d.te.lens) [] OTHER -> i = 1]
TestCounts(d, n) == [i \in 1..n |-> CASE d.nature = "sequential" -> i \in Ends(d.te.lens) [] OTHER -> TRUE]
(* an order of the training set after a shuffle: every datum once, sequences whole, with their beginnings marked *)
Permutation(o) == \A i \in 1..Len(o) : i \in {o[k] : k \in 1..Len(o)}
WholeSequences(d, o, first) == \A k \in 1..Len(o) : first[k] = (o[k] \in Starts(d.tr.lens)) /\ (~first[k] => k > 1 /\ o[k] = o[k - 1] + 1)
ShuffleOK(d, o, first) ==
    CASE d.nature = "nonTemporal" -> Permutation(o) /\ \A k \in 1..Len(o) : first[k]
      [] d.nature = "sequential" -> Permutation(o) /\ WholeSequences(d, o, first)
      [] OTHER -> TRUE                                      \* windows: TimeSeries and Training (C07)
(* precision belongs to regressions, separator to the others *)
Keeps(problem, what) == what = (IF problem = "regression" THEN "precision" ELSE "separator")
==================================================================================
