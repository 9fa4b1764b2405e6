----------------------------------- MODULE Layers -----------------------------------
(* What a chain of layers computes, hands back and learns (C16 C17 C18 C23), in         *)
(* fixed-point numbers (Act).  Everything follows from the windows of Arch: the same    *)
(* connections (output, weight, input) serve the output, the error handed back and the  *)
(* gradient step.                                                                       *)
EXTENDS Arch, Act, TLC
BiasUnit(L) == IF L.kind \in {"fc", "rec", "gru"} THEN 1 ELSE 1000     \* the bias input is 1 / BiasUnit
HasNeurons(L) == L.kind \notin {"pool1", "pool2"}

(* w: the weights of the layer, w[neuron + 1][weight + 1]; x: the inputs. *)
WSum(L, w, x, o) == LET v == w[Neuron(L, o) + 1] IN
    SumTo(LAMBDA j : LET i == Term(L, o, j - 1) IN IF i < 0 THEN 0 ELSE Mul(v[j], x[i + 1]), L.win) + Div(v[L.win + 1], BiasUnit(L))
MaxOf(L, x, o) == LET W == Window(L, o) IN CHOOSE m \in {x[i + 1] : i \in W} : \A i \in W : x[i + 1] <= m
Sums(L, w, x) == [o \in 1..L.nout |-> IF HasNeurons(L) THEN WSum(L, w, x, o - 1) ELSE MaxOf(L, x, o - 1)]
Outputs(L, act, sums) == [o \in 1..L.nout |-> IF HasNeurons(L) THEN F(act, sums[o]) ELSE sums[o]]

(* output modifiers: dropout scales what is used and silences whole outputs in training *)
Keep(op) == One - op.v
RECURSIVE Scaled(_, _, _)
Scaled(opts, i, u) == IF i > Len(opts) THEN u ELSE Scaled(opts, i + 1, IF opts[i].k = "drop" THEN Mul(u, Keep(opts[i])) ELSE u)
InUse(opts, u) == [o \in DOMAIN u |-> Scaled(opts, 1, u[o])]
Drops(opts) == \E i \in DOMAIN opts : opts[i].k = "drop"
Dropout(opts) == opts[CHOOSE i \in DOMAIN opts : opts[i].k = "drop"]

(* error modifiers: opts is the declared sequence of [k, v] *)
Norm1(w) == Div(SumTo(LAMBDA n : SumTo(LAMBDA j : Abs(w[n][j]), Len(w[n])), Len(w)), Len(w))
Norm2(w) == Div(SumTo(LAMBDA n : SumTo(LAMBDA j : Mul(w[n][j], w[n][j]), Len(w[n])), Len(w)), Len(w))
Modify1(op, w, e, kept) == CASE op.k = "mul" -> [o \in DOMAIN e |-> Mul(e[o], op.v)]
                       [] op.k = "l1" -> LET r == Mul(Norm1(w), op.v) IN [o \in DOMAIN e |-> e[o] + r]
                       [] op.k = "l2" -> LET r == Mul(Norm2(w), op.v) IN [o \in DOMAIN e |-> e[o] + r]
                       [] op.k = "drop" -> [o \in DOMAIN e |-> IF kept[o] = 0 THEN 0 ELSE e[o]]
                       [] OTHER -> e
RECURSIVE ModifyFrom(_, _, _, _, _)
ModifyFrom(opts, i, w, e, kept) == IF i > Len(opts) THEN e ELSE ModifyFrom(opts, i + 1, w, Modify1(opts[i], w, e, kept), kept)
Modified(opts, w, e, kept) == ModifyFrom(opts, 1, w, e, kept)

(* local gradients: error times slope *)
Locals(L, act, sums, e) == [o \in 1..L.nout |-> Mul(e[o], Slope(act, sums[o]))]
(* error handed back for input i (from 0) *)
Back(L, w, g, i) == SumTo(LAMBDA o : SumTo(LAMBDA j : IF Term(L, o - 1, j - 1) = i THEN Mul(g[o], w[Neuron(L, o - 1) + 1][j]) ELSE 0, L.win), L.nout)
(* gradient step of weight j of neuron n (from 1; j = win + 1 is the bias, in units of the bias input) *)
Grad(L, x, g, n, j) == SumTo(LAMBDA o : IF Neuron(L, o - 1) # n - 1 THEN 0
                                        ELSE IF j > L.win THEN g[o]
                                        ELSE LET i == Term(L, o - 1, j - 1) IN IF i < 0 THEN 0 ELSE Mul(g[o], x[i + 1]), L.nout)
(* lr is in units of 2^-20; the step of a shared filter is the average over its K positions *)
Step(L, lr, gr) == Div(Mul(gr, Div(lr, 64 * L.K)), 4)
=====================================================================================
