------------------------------------ MODULE Arch ------------------------------------
(* Which networks a description stands for (C20), and which inputs each output of a     *)
(* layer reads (C16).  A description: the input shape and a sequence of layer models    *)
(* [t, n, k, ...] with t in "fc" "rec" "gru" "conv" "lc" "pool" "input".               *)
(* A shape is <<n>> or <<channels, x>> or <<channels, x, y>>.                          *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE ProdFrom(_, _, _)
ProdFrom(q, i, acc) == IF i > Len(q) THEN acc ELSE IF q[i] < 1 THEN 0 ELSE IF acc > 100000000 \div q[i] THEN 100000001 ELSE ProdFrom(q, i + 1, acc * q[i])    \* saturates
Prod(q) == ProdFrom(q, 1, 1)
CeilDiv(a, b) == (a + b - 1) \div b
Filter == {"conv", "lc", "pool"}

(* One layer on top of a shape: its descriptor. *)
Norm(shape) == IF Len(shape) = 1 THEN <<1, shape[1]>> ELSE shape
Kind(t, shape) == IF t \in Filter THEN t \o (IF Len(shape) = 3 THEN "2" ELSE "1") ELSE t
Layer(m, shape) ==
    LET s == IF m.t \in Filter THEN Norm(shape) ELSE shape
        kind == Kind(m.t, s)
        nin == Prod(shape)
        ox == CASE m.t = "conv" -> s[2] - m.k + 1 [] m.t \in {"lc", "pool"} -> CeilDiv(s[2], m.k) [] OTHER -> 1
        oy == IF Len(s) < 3 \/ m.t \notin Filter THEN 1 ELSE CASE m.t = "conv" -> s[3] - m.k + 1 [] OTHER -> CeilDiv(s[3], m.k)
        ch == IF m.t = "pool" THEN s[1] ELSE IF m.t \in Filter THEN m.n ELSE 1
        win == IF m.t \in Filter THEN m.k * (IF Len(s) = 3 THEN m.k ELSE 1) * (IF m.t = "pool" THEN 1 ELSE s[1]) ELSE nin
        nout == IF m.t \in Filter THEN ch * ox * oy ELSE m.n
        neurons == CASE m.t = "conv" -> m.n [] m.t = "pool" -> 0 [] OTHER -> nout
        per == CASE m.t \in {"rec"} -> nin + 2 [] m.t = "gru" -> 3 * (nin + 2) [] m.t = "pool" -> 0 [] OTHER -> win + 1
    IN [kind |-> kind, nin |-> nin, nout |-> nout, in |-> IF m.t \in Filter THEN s ELSE <<nin>>,
        out |-> IF m.t \in Filter THEN (IF Len(s) = 3 THEN <<ch, ox, oy>> ELSE <<ch, ox>>) ELSE <<m.n>>,
        C |-> IF m.t \in Filter THEN s[1] ELSE 1, X |-> IF m.t \in Filter THEN s[2] ELSE nin, Y |-> IF Len(s) = 3 /\ m.t \in Filter THEN s[3] ELSE 1,
        k |-> m.k, ox |-> ox, oy |-> oy, ch |-> ch, win |-> win, neurons |-> neurons, params |-> neurons * per,
        K |-> IF m.t = "conv" THEN ox * oy ELSE 1]

(* Why a layer cannot be put on top of a shape. *)
Ill(m, shape) ==
    \/ m.t = "input" \/ shape = <<>> \/ \E i \in DOMAIN shape : shape[i] < 1
    \/ Prod(shape) > 1000000
    \/ m.t \in Filter /\ (Len(shape) > 3 \/ m.k < 1 \/ m.k > Norm(shape)[2] \/ (Len(shape) = 3 /\ m.k > shape[3]))
    \/ m.t \in {"conv", "lc"} /\ m.n < 1
    \/ m.t \in {"fc", "rec", "gru"} /\ (m.n < 1 \/ m.n > 1000000)
    \/ m.t \in {"conv", "lc"} /\ Layer(m, shape).neurons > 1000000
    \/ m.t # "pool" /\ Layer(m, shape).win + (IF m.t \in {"rec", "gru"} THEN 2 ELSE 1) > 1000000     \* weights of a neuron

RECURSIVE BuildFrom(_, _, _, _)
BuildFrom(shape, ms, i, acc) ==
    IF i > Len(ms) THEN acc
    ELSE IF Ill(ms[i], shape) THEN <<>>
    ELSE LET L == Layer(ms[i], shape) IN BuildFrom(L.out, ms, i + 1, Append(acc, L))
(* No layers: refused.  ms[1] is the first model of the description: it must be the input. *)
Refused(q) == q = <<>>
Build(ms) ==
    IF Len(ms) < 2 \/ Len(ms) > 1000 \/ ms[1].t # "input" THEN <<>>
    ELSE IF Prod(ms[1].shape) > 2073600 THEN <<>>
    ELSE BuildFrom(ms[1].shape, ms, 2, <<>>)

(* ---- windows ---- outputs, inputs and weights are numbered from 0, the channel varying fastest *)
Chan(L, o) == o % L.ch
Pos(L, o) == o \div L.ch
PX(L, o) == Pos(L, o) % L.ox
PY(L, o) == Pos(L, o) \div L.ox
At(L, c, x, y) == IF x < L.X /\ y < L.Y THEN (y * L.X + x) * L.C + c ELSE -1        \* outside of the input: nothing
Neuron(L, o) == IF L.kind \in {"conv1", "conv2"} THEN Chan(L, o) ELSE o
(* the input that weight w multiplies for output o, or -1 *)
Term(L, o, w) ==
    CASE L.kind \in {"fc", "rec", "gru"} -> w
      [] L.kind \in {"conv1", "conv2"} -> LET c == w % L.C d == w \div L.C IN At(L, c, PX(L, o) + (d % L.k), PY(L, o) + (d \div L.k))
      [] L.kind \in {"lc1", "lc2"} -> LET c == w % L.C d == w \div L.C IN At(L, c, (PX(L, o) * L.k) + (d % L.k), (PY(L, o) * L.k) + (d \div L.k))
      [] L.kind \in {"pool1", "pool2"} -> At(L, Chan(L, o), (PX(L, o) * L.k) + (w % L.k), (PY(L, o) * L.k) + (w \div L.k))
Window(L, o) == {Term(L, o, w) : w \in 0..L.win - 1} \ {-1}
=====================================================================================
