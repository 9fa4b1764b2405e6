-------------------------------- MODULE MCDataSet --------------------------------
(* The library builds a data set step by step (sizes from the last datum, flattening   *)
(* of the sequences with a running position, then checks); over all small descriptions *)
(* it must accept exactly the well-formed ones and mark the ends of the sequences.     *)
(* How: "built"; "back": only the last datum is looked at; "unnoticed": sequences that *)
(* are empty are not looked for (their marks fall on the neighbours or outside).       *)
EXTENDS DataSet, TLC
CONSTANTS How, MaxRows, MaxSize
VARIABLES d, step, pos, k, first, last, verdict
vars == <<d, step, pos, k, first, last, verdict>>
Sizes(n, lo) == UNION {[1..m -> lo..MaxSize] : m \in 0..n}
X(lens, ins, labs) == [lens |-> lens, ins |-> ins, labs |-> labs]
Set3 == {X(l, i, b) : l \in UNION {[1..m -> 0..2] : m \in 0..2}, i \in UNION {[1..m -> 1..1] : m \in 0..4}, b \in UNION {[1..m -> 1..2] : m \in 0..3}}
Set2 == {X(<<>>, i, b) : i \in Sizes(MaxRows, 1), b \in Sizes(MaxRows, 1)}
Te2 == {X(<<>>, <<>>, <<>>), X(<<>>, <<1>>, <<2>>), X(<<>>, <<1, 2>>, <<2, 2>>), X(<<>>, <<2>>, <<1>>), X(<<>>, <<1>>, <<>>)}
Init ==
    /\ \/ \E p \in {"classification", "regression"}, n \in {"nonTemporal", "sequential", "timeSeries"}, r \in 0..1, tr \in Set2, te \in Te2 :
             d = [problem |-> p, nature |-> n, r |-> r, dim |-> 2, tr |-> tr, te |-> te]
       \/ \E p \in {"classification", "regression"}, n \in {"nonTemporal", "sequential"}, tr \in {x \in Set3 : Len(x.ins) = Total(x.lens)} :
             d = [problem |-> p, nature |-> n, r |-> 0, dim |-> 3, tr |-> tr, te |-> tr]
    /\ step = "start" /\ pos = 1 /\ k = 1 /\ first = {} /\ last = {} /\ verdict = "none"
Refuse == step' = "done" /\ verdict' = "refused" /\ UNCHANGED <<d, pos, k, first, last>>
Start == /\ step = "start"
         /\ IF d.dim = 3 /\ d.nature # "sequential" THEN Refuse
            ELSE IF d.dim = 3 /\ How # "unnoticed" /\ \E i \in 1..Len(d.tr.lens) : d.tr.lens[i] = 0 THEN Refuse
            ELSE step' = (IF d.dim = 3 THEN "flatten" ELSE "check") /\ UNCHANGED <<d, pos, k, first, last, verdict>>
Flatten == /\ step = "flatten"
           /\ IF k > Len(d.tr.lens) THEN step' = "check" /\ UNCHANGED <<pos, k, first, last>>
              ELSE /\ first' = first \cup {pos} /\ pos' = pos + d.tr.lens[k] /\ last' = last \cup {pos + d.tr.lens[k] - 1} /\ k' = k + 1 /\ UNCHANGED step
           /\ UNCHANGED <<d, verdict>>
Last(q) == q[Len(q)]
Check == /\ step = "check"
         /\ IF d.tr.ins = <<>> \/ d.tr.labs = <<>> THEN Refuse
            ELSE IF d.nature = "timeSeries" /\ d.r < 1 THEN Refuse
            ELSE IF Len(d.tr.ins) # Len(d.tr.labs) \/ Len(d.te.ins) # Len(d.te.labs) THEN Refuse
            ELSE IF How # "back" /\ \E x \in {d.tr, d.te} : ~AllEqual(x.ins, Last(d.tr.ins)) \/ ~AllEqual(x.labs, Last(d.tr.labs)) THEN Refuse
            ELSE IF d.problem = "classification" /\ d.tr.labs[1] < 2 THEN Refuse
            ELSE IF d.nature = "sequential" /\ d.dim = 2 THEN Refuse
            ELSE step' = "done" /\ verdict' = "built" /\ UNCHANGED <<d, pos, k, first, last>>
Next == Start \/ Flatten \/ Check
Spec == Init /\ [][Next]_vars
ExactlyTheWellFormed == step = "done" => (verdict = "built" <=> WellFormed(d))
InBounds == step = "check" /\ d.dim = 3 => first \cup last \subseteq 1..Total(d.tr.lens)
Marks == verdict = "built" /\ d.dim = 3 => first = Starts(d.tr.lens) /\ last = Ends(d.tr.lens) /\ (\A i \in first : i = 1 \/ i - 1 \in last)
==================================================================================
