---------------------------------- MODULE Summary -----------------------------------
(* What the summary of a network says of it (C29).  q: the layers, as built by Arch from   *)
(* the description ms; acts and opts are those of the description.  Values in millionths.  *)
EXTENDS Arch
RECURSIVE SumOf(_, _)
SumOf(q, i) == IF i > Len(q) THEN 0 ELSE q[i] + SumOf(q, i + 1)
Title(kind) == CASE kind = "fc" -> "FullyConnected" [] kind = "rec" -> "Recurrence" [] kind = "gru" -> "GruLayer"
                 [] kind = "conv1" -> "Convolution1D" [] kind = "conv2" -> "Convolution2D" [] kind = "lc1" -> "LocallyConnected1D" [] kind = "lc2" -> "LocallyConnected2D"
                 [] kind = "pool1" -> "MaxPooling1D" [] kind = "pool2" -> "MaxPooling2D"
IsFilter(L) == L.kind \notin {"fc", "rec", "gru"}
Pools(L) == L.kind \in {"pool1", "pool2"}
(* what is said of one layer; -1 and "": not said *)
LayerLine(L, m) == [title |-> Title(L.kind), in |-> L.in, out |-> L.out,
                    units |-> IF Pools(L) THEN -1 ELSE IF IsFilter(L) THEN L.ch ELSE L.nout,
                    k |-> IF ~IsFilter(L) THEN <<>> ELSE IF L.kind \in {"conv2", "lc2", "pool2"} THEN <<m.k, m.k>> ELSE <<m.k>>,
                    params |-> IF Pools(L) THEN -1 ELSE L.params,
                    act |-> IF L.kind = "gru" \/ Pools(L) THEN "" ELSE m.act, opts |-> m.opts]
Layers(q, ms) == [i \in DOMAIN q |-> LayerLine(q[i], ms[i + 1])]
Parameters(q) == SumOf([i \in DOMAIN q |-> q[i].params], 1)
(* n: [q, ms, name, epochs, trainings, lr, mom] *)
Summary(n) == [name |-> n.name, params |-> Parameters(n.q), epochs |-> n.epochs, trainings |-> n.trainings, layers |-> Layers(n.q, n.ms), lr |-> n.lr, mom |-> n.mom]
=====================================================================================
