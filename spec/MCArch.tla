----------------------------------- MODULE MCArch -----------------------------------
(* The window geometry of every small layer: facts that follow from its purpose, not    *)
(* from its formulas.                                                                   *)
EXTENDS Arch, TLC
CONSTANTS MaxC, MaxX, MaxK, MaxN
VARIABLE d
Models == {[t |-> t, n |-> n, k |-> k] : t \in {"conv", "lc", "pool", "fc", "rec", "gru"}, n \in 0..MaxN, k \in 0..MaxK}
Shapes == {<<x>> : x \in 0..MaxX} \cup {<<c, x>> : c \in 1..MaxC, x \in 0..MaxX} \cup {<<c, x, y>> : c \in 1..MaxC, x \in 1..MaxX, y \in 0..MaxX} \cup {<<1, 2, 2, 2>>}
Init == d \in {<<x>> : x \in Models}
Next == Len(d) = 1 /\ \E x \in Shapes : d' = Append(d, x)
Spec == Init /\ [][Next]_d
m == d[1]
s == IF Len(d) = 2 THEN d[2] ELSE <<0>>
L == Layer(m, s)
Ok == ~Ill(m, s)
Outs == 0..L.nout - 1
Ins == 0..L.nin - 1
(* The declared output shape counts the outputs, and the next layer can be built on it. *)
ShapeCounts == Ok => Prod(L.out) = L.nout /\ L.nout >= 1 /\ ~Ill([t |-> "fc", n |-> 1, k |-> 0], L.out)
(* Windows are inside the input, never empty, and no weight reads what another weight of the same window reads. *)
WindowsInside == Ok => \A o \in Outs : Window(L, o) # {} /\ Window(L, o) \subseteq Ins
WeightsDistinct == Ok => \A o \in Outs : \A w1, w2 \in 0..L.win - 1 : w1 # w2 /\ Term(L, o, w1) >= 0 => Term(L, o, w1) # Term(L, o, w2)
(* Every input is read; by one window only (per channel or filter) where the windows do not overlap. *)
Covered == Ok => \A i \in Ins : \E o \in Outs : i \in Window(L, o)
Partition == Ok /\ m.t \in {"lc", "pool"} => \A i \in Ins : \A f \in 0..L.ch - 1 : Cardinality({o \in Outs : Chan(L, o) = f /\ i \in Window(L, o)}) = (IF m.t = "pool" THEN (IF i % L.C = f THEN 1 ELSE 0) ELSE 1)
(* Filters read the same windows; pooling keeps the channels apart. *)
SameWindows == Ok /\ m.t \in {"conv", "lc"} => \A o1, o2 \in Outs : Pos(L, o1) = Pos(L, o2) => Window(L, o1) = Window(L, o2)
ChannelsApart == Ok /\ m.t = "pool" => \A o \in Outs : \A i \in Window(L, o) : i % L.C = Chan(L, o)
(* A convolution is the same at every position: moving the window moves what it reads. *)
Translation == Ok /\ m.t = "conv" => \A o \in Outs : PX(L, o) > 0 => \A w \in 0..L.win - 1 : Term(L, o, w) = Term(L, o - L.ch, w) + L.C
Extent == Ok /\ m.t \in Filter => L.ox * (IF m.t = "conv" THEN 1 ELSE m.k) + (IF m.t = "conv" THEN m.k - 1 ELSE 0) >= L.X
Sharing == Ok => \A n \in 0..L.neurons - 1 : Cardinality({o \in Outs : Neuron(L, o) = n}) = L.K
=====================================================================================
