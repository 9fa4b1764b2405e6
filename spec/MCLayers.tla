---------------------------------- MODULE MCLayers ----------------------------------
(* Chains of two small layers of every kind: what Layers hands back and learns from is    *)
(* the derivative of what it computes.  With the identity activation the outputs are      *)
(* linear in any single weight and in any single input (and pooling is, as long as the    *)
(* largest input of a window stays the same), so differences decide the derivative        *)
(* exactly: no formula is trusted.                                                        *)
EXTENDS Layers
CONSTANTS MaxC, MaxX, MaxK, MaxN, Seeds, Variant
VARIABLE d
Models == {[t |-> t, n |-> n, k |-> k] : t \in {"conv", "lc"}, n \in 1..MaxN, k \in 1..MaxK} \cup {[t |-> "fc", n |-> n, k |-> 0] : n \in 1..MaxN} \cup {[t |-> "pool", n |-> 0, k |-> k] : k \in 1..MaxK}
Shapes == {<<x>> : x \in 1..MaxX} \cup {<<c, x>> : c \in 1..MaxC, x \in 1..MaxX} \cup {<<c, x, y>> : c \in 1..MaxC, x \in 1..MaxX, y \in 2..MaxX}
(* d: shape, first layer, second layer, <<seed>> *)
Init == d \in {<<s>> : s \in Shapes}
Next == \/ Len(d) = 1 /\ \E m \in Models : ~Ill(m, d[1]) /\ d' = Append(d, m)
        \/ Len(d) = 2 /\ \E m \in Models : ~Ill(m, Layer(d[2], d[1]).out) /\ d' = Append(d, m)
        \/ Len(d) = 3 /\ \E r \in 0..Seeds - 1 : d' = Append(d, r)
Spec == Init /\ [][Next]_d
Full == Len(d) = 4
A == Layer(d[2], d[1])
B == Layer(d[3], A.out)
(* whole numbers, from the seed *)
Num(r, i, m) == ((((((i * i) * 7) + (i * (5 + r))) + ((i * 13) \div 5)) + r) % ((2 * m) + 1)) - m
W(L, r) == [n \in 1..L.neurons |-> [j \in 1..L.win + 1 |-> One * Num(r + n, j + n, 2) * (IF j > L.win THEN BiasUnit(L) ELSE 1)]]
Xs(r) == [i \in 1..A.nin |-> One * Num(r + 2, i, 3)]
Es(r) == [o \in 1..B.nout |-> One * (IF (o + r) % 2 = 0 THEN 1 ELSE -2)]          \* errors of the outputs
Kept(r) == [o \in 1..A.nout |-> IF (o + r) % 4 = 0 THEN 0 ELSE 1]             \* outputs of A kept by a dropout
Silence(u, kept) == [o \in DOMAIN u |-> IF kept[o] = 0 THEN 0 ELSE u[o]]
OutA(wa, x, kept) == TLCEval(Silence(Outputs(A, "id", Sums(A, wa, x)), kept))
OutB(wb, u) == TLCEval(Outputs(B, "id", Sums(B, wb, u)))
Dot(a, b) == SumTo(LAMBDA o : Mul(a[o], b[o]), Len(a))
(* a small step: the sums move by less than half of a whole number *)
H == 64
Shift(w, n, j, by) == [w EXCEPT ![n][j] = @ + by]
Moved(L, j) == H * (IF j > L.win THEN BiasUnit(L) ELSE 1)

(* the definitions under check, and mistakes *)
BackOf(L, w, g, x, i) ==
    IF ~HasNeurons(L) THEN SumTo(LAMBDA o : IF x[i + 1] = MaxOf(L, x, o - 1) /\ i \in Window(L, o - 1) THEN g[o] ELSE 0, L.nout)
    ELSE CASE Variant = "last" ->                    \* a later window overwrites what an earlier one handed back
           LET O == {o \in 1..L.nout : i \in Window(L, o - 1)} IN IF O = {} THEN 0 ELSE LET last == CHOOSE o \in O : \A p \in O : p <= o IN
               SumTo(LAMBDA j : IF Term(L, last - 1, j - 1) = i THEN Mul(g[last], w[Neuron(L, last - 1) + 1][j]) ELSE 0, L.win)
      [] Variant = "transposed" ->                   \* the kernel is not turned around: weight j serves the opposite end of the window
           SumTo(LAMBDA o : SumTo(LAMBDA j : IF Term(L, o - 1, L.win - j) = i THEN Mul(g[o], w[Neuron(L, o - 1) + 1][j]) ELSE 0, L.win), L.nout)
      [] OTHER -> Back(L, w, g, i)
GradOf(L, x, g, n, j) ==
    CASE Variant = "unshared" ->                     \* a shared filter learns from its first position only
           LET O == {o \in 1..L.nout : Neuron(L, o - 1) = n - 1} o == CHOOSE p \in O : \A q \in O : p <= q IN
               IF j > L.win THEN g[o] ELSE LET i == Term(L, o - 1, j - 1) IN IF i < 0 THEN 0 ELSE Mul(g[o], x[i + 1])
      [] OTHER -> Grad(L, x, g, n, j)

(* Pooling: a window with two largest inputs has no derivative. *)
Tie(L, x) == ~HasNeurons(L) /\ \E o \in 0..L.nout - 1 : \E i, j \in Window(L, o) : i # j /\ x[i + 1] = x[j + 1] /\ x[i + 1] = MaxOf(L, x, o)
Facts(r) ==
    LET x == TLCEval(Xs(r)) e == TLCEval(Es(r)) wa == TLCEval(W(A, r)) wb == TLCEval(W(B, r + 1)) kept == TLCEval(Kept(r))
        u == OutA(wa, x, kept)
        J(va, vb, z) == Dot(e, OutB(vb, OutA(va, z, kept)))
        Jb(vb, v) == Dot(e, OutB(vb, v))
        gb == TLCEval(Locals(B, "id", Sums(B, wb, u), e))
        ea == TLCEval([i \in 1..A.nout |-> BackOf(B, wb, gb, u, i - 1)])
        ga == TLCEval(Locals(A, "id", Sums(A, wa, x), Modified(<<[k |-> "drop", v |-> 1024]>>, wa, ea, kept)))
    IN [tie |-> Tie(A, x) \/ Tie(B, u),
        (* the error handed back by B is the derivative with respect to its inputs *)
        back |-> \A i \in 1..A.nout : 2 * Mul(H, ea[i]) = Jb(wb, [u EXCEPT ![i] = @ + H]) - Jb(wb, [u EXCEPT ![i] = @ - H]),
        (* the gradients of B and, through B and the dropout, of A, are the derivatives with respect to their weights *)
        gradB |-> \A n \in 1..B.neurons : \A j \in 1..B.win + 1 : 2 * Mul(H, GradOf(B, u, gb, n, j)) = J(wa, Shift(wb, n, j, Moved(B, j)), x) - J(wa, Shift(wb, n, j, -Moved(B, j)), x),
        gradA |-> \A n \in 1..A.neurons : \A j \in 1..A.win + 1 : 2 * Mul(H, GradOf(A, x, ga, n, j)) = J(Shift(wa, n, j, Moved(A, j)), wb, x) - J(Shift(wa, n, j, -Moved(A, j)), wb, x)]
Fact == IF Full THEN Facts(d[4]) ELSE [tie |-> TRUE, back |-> TRUE, gradB |-> TRUE, gradA |-> TRUE]
BackIsDerivative == Fact.tie \/ Fact.back
GradIsDerivative == Fact.tie \/ (Fact.gradB /\ Fact.gradA)
(* Following the gradients never makes the linear functional smaller, and the squared error decreases for a small enough step: *)
(* moving every weight of B by H * gradient moves e.y by H * |gradient|^2.                                                     *)
Ascends ==
    Full /\ HasNeurons(B) => LET x == TLCEval(Xs(d[4])) e == TLCEval(Es(d[4])) wa == TLCEval(W(A, d[4])) wb == TLCEval(W(B, d[4] + 1)) kept == TLCEval(Kept(d[4])) u == OutA(wa, x, kept)
                     g == TLCEval(Locals(B, "id", Sums(B, wb, u), e))
                     moved == TLCEval([n \in 1..B.neurons |-> [j \in 1..B.win + 1 |-> wb[n][j] + (GradOf(B, u, g, n, j) \div 64) * (IF j > B.win THEN BiasUnit(B) ELSE 1)]])
                 IN Dot(e, OutB(moved, u)) - Dot(e, OutB(wb, u)) >= 0
(* Dropout: over all ways of silencing outputs, each with its probability, the mean output in training is the output in use. *)
Quarter == 1024
Masks == [1..3 -> {0, 1}]
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Weight(p4, mask) == LET c == Cardinality({o \in 1..3 : mask[o] = 0}) IN Pow(p4, c) * Pow(4 - p4, 3 - c)      \* out of 64
MeanInUse == Full => \A p4 \in 0..3 : LET u == [o \in 1..3 |-> One * Num(d[4], o, 3)]
                         mean == [o \in 1..3 |-> LET T(m) == IF m[o] = 0 THEN 0 ELSE u[o] * Weight(p4, m) S == {m \in Masks : TRUE} IN
                                     FoldFunction(+, 0, [m \in S |-> T(m)]) \div 64]
                     IN InUse(<<[k |-> "drop", v |-> p4 * Quarter]>>, u) = mean
=====================================================================================
