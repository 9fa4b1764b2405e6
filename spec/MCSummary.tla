--------------------------------- MODULE MCSummary ----------------------------------
(* The summary of every small chain of layers: it adds up, and nothing is lost in it.      *)
EXTENDS Summary, TLC
CONSTANTS MaxX, MaxK, MaxN, Variant
VARIABLE d
Models == {[t |-> t, n |-> n, k |-> k, act |-> "", opts |-> <<>>] : t \in {"conv", "lc"}, n \in 1..MaxN, k \in 1..MaxK}
          \cup {[t |-> t, n |-> n, k |-> 0, act |-> "", opts |-> <<>>] : t \in {"fc", "rec", "gru"}, n \in 1..MaxN} \cup {[t |-> "pool", n |-> 0, k |-> k, act |-> "", opts |-> <<>>] : k \in 1..MaxK}
Shapes == {<<x>> : x \in 1..MaxX} \cup {<<c, x>> : c \in 1..2, x \in 1..MaxX} \cup {<<c, x, y>> : c \in 1..2, x \in 1..MaxX, y \in 1..MaxX}
Init == d \in {<<[t |-> "input", n |-> 0, k |-> 0, act |-> "", opts |-> <<>>, shape |-> s]>> : s \in Shapes}
Next == Len(d) < 3 /\ \E m \in Models : ~Refused(Build(Append(d, m))) /\ d' = Append(d, m)
Spec == Init /\ [][Next]_d
q == Build(d)
(* as built before its repair: recurrent layers with input and output the wrong way round *)
Swapped(L) == IF Variant = "swapped" /\ L.kind \in {"rec", "gru"} THEN [L EXCEPT !.in = L.out, !.out = L.in] ELSE L
Shown == [i \in DOMAIN q |-> IF Variant = "units" /\ ~IsFilter(q[i]) THEN [LayerLine(q[i], d[i + 1]) EXCEPT !.units = q[i].nin] ELSE LayerLine(Swapped(q[i]), d[i + 1])]
Some == Len(d) > 1
(* each layer starts with what the previous one ends with *)
Chains == Some => Prod(Shown[1].in) = Prod(d[1].shape) /\ \A i \in 1..Len(Shown) - 1 : Prod(Shown[i].out) = Prod(Shown[i + 1].in)
(* the total is the sum of the lines *)
AddsUp == Some => Parameters(q) = SumOf([i \in DOMAIN Shown |-> IF Shown[i].params < 0 THEN 0 ELSE Shown[i].params], 1)
(* every line stands for exactly one model: the description can be read off the summary *)
TypeOf(t) == CASE t = "FullyConnected" -> "fc" [] t = "Recurrence" -> "rec" [] t = "GruLayer" -> "gru" [] t \in {"Convolution1D", "Convolution2D"} -> "conv" [] t \in {"LocallyConnected1D", "LocallyConnected2D"} -> "lc" [] OTHER -> "pool"
Recovered(x) == [t |-> TypeOf(x.title), n |-> IF x.units < 0 THEN 0 ELSE x.units, k |-> IF x.k = <<>> THEN 0 ELSE x.k[1], act |-> "", opts |-> <<>>]
Readable == Some => \A i \in DOMAIN Shown : Recovered(Shown[i]) = d[i + 1]
=====================================================================================
