--------------------------------- MODULE Recurrent ----------------------------------
(* Units that carry their previous output (C19, C18): the recurrent neuron and the      *)
(* gated recurrent unit.  Each unit only reads its own previous output.                 *)
(* D is the set of deviations an implementation has; D = {} is what the properties say. *)
(*   rec-reset, gru-reset   a temporal reset does not clear the previous output    *)
(*   recurrent-bias-step          the bias's step is applied to the recurrent weight     *)
(*   gru-combination              the gated unit leaves out its previous output          *)
(*   gru-gradient                 the gates of a gated unit learn from another error     *)
EXTENDS Arch, Act, TLC
(* v: weights (inputs, recurrent, bias); h: the previous output *)
USum(v, x, h) == SumTo(LAMBDA j : Mul(v[j], x[j]), Len(x)) + Mul(v[Len(x) + 1], h) + v[Len(x) + 2]
Gate(v, k, n) == SubSeq(v, k * (n + 2) + 1, (k + 1) * (n + 2))           \* 0 reset, 1 update, 2 candidate

(* Memory of a unit: o its last output, s the last sums and rE the carried errors of its gates. *)
Fresh(gates) == [o |-> 0, s |-> [i \in 1..gates |-> 0], rE |-> [i \in 1..gates |-> 0]]
Gates(kind) == IF kind = "gru" THEN 3 ELSE 1

(* What a unit computes: o its output, s the sums, own the inputs of the recurrent weights, h the previous output, z and c. *)
Prev(D, kind, mem, reset) == IF reset /\ (kind \o "-reset") \notin D THEN 0 ELSE mem.o
Rnn(D, act, v, x, mem, reset) == LET h == Prev(D, "rec", mem, reset) q == USum(v, x, h) IN [o |-> F(act, q), s |-> <<q>>, own |-> <<h>>, h |-> h, z |-> 0, c |-> 0]
Gru(D, v, x, mem, reset) ==
    LET n == Len(x) h == Prev(D, "gru", mem, reset)
        sr == USum(Gate(v, 0, n), x, h) sz == USum(Gate(v, 1, n), x, h)
        r == F("sig", sr) z == F("sig", sz) rh == Mul(r, h)
        sc == USum(Gate(v, 2, n), x, rh) c == F("tanh", sc)
    IN [o |-> (IF "gru-combination" \in D THEN 0 ELSE Mul(One - z, h)) + Mul(z, c), s |-> <<sr, sz, sc>>, own |-> <<h, h, rh>>, h |-> h, z |-> z, c |-> c]
Unit(D, kind, act, v, x, mem, reset) == IF kind = "gru" THEN Gru(D, v, x, mem, reset) ELSE Rnn(D, act, v, x, mem, reset)

(* Local gradients of the gates for an error e of the output. *)
Local(D, kind, act, v, n, w, e) ==
    IF kind = "rec" THEN <<Mul(e, Slope(act, w.s[1]))>>
    ELSE LET gc == Mul(Mul(e, w.z), Slope("tanh", w.s[3]))
             gz(d) == Mul(d, Slope("sig", w.s[2]))
         IN IF "gru-gradient" \in D THEN <<0, gz(Mul(e, w.c) + Mul(e, w.z)), gc>>
            ELSE <<Mul(Mul(Mul(gc, Gate(v, 2, n)[n + 1]), w.h), Slope("sig", w.s[1])), gz(Mul(e, w.c - w.h)), gc>>
LrMul(lr, g) == Div(Mul(g, Div(lr, 64)), 4)                            \* lr in units of 2^-20
(* The step of one gate: its change dw, the part of it that it does not remember as its previous change, its carried error. *)
GateStep(D, act, v, x, own, sum0, rE0, g, lr, mom, pd) ==
    LET n == Len(x)
        dx == TLCEval([j \in 1..n |-> Mul(LrMul(lr, g), x[j]) + Mul(mom, pd[j])])
        carried == Mul(rE0, Slope(act, sum0))
    IN IF "recurrent-bias-step" \in D
       THEN LET d1 == LrMul(lr, g) + Mul(mom, pd[n + 1])
                rE == g + Mul(carried, v[n + 1] + d1)
                d2 == Mul(LrMul(lr, rE), own) + Mul(mom, pd[n + 1])
            IN [dw |-> dx \o <<d1 + d2, 0>>, not |-> TLCEval([j \in 1..n + 2 |-> IF j = n + 1 THEN d1 ELSE 0]), rE |-> rE]
       ELSE LET rE == g + Mul(carried, v[n + 1])
            IN [dw |-> dx \o <<Mul(LrMul(lr, rE), own) + Mul(mom, pd[n + 1]), LrMul(lr, g) + Mul(mom, pd[n + 2])>>, not |-> TLCEval([j \in 1..n + 2 |-> 0]), rE |-> rE]
GateAct(kind, act, k) == IF kind = "rec" THEN act ELSE IF k = 3 THEN "tanh" ELSE "sig"
Learn(D, kind, act, v, x, mem, reset, w, e, lr, mom, pd) ==
    LET n == Len(x)
        g == TLCEval(Local(D, kind, act, v, n, w, e))
        t == TLCEval([k \in 1..Gates(kind) |-> GateStep(D, GateAct(kind, act, k), Gate(v, k - 1, n), x, w.own[k], mem.s[k], IF reset THEN 0 ELSE mem.rE[k], g[k], lr, mom, Gate(pd, k - 1, n))])
    IN [g |-> g, rE |-> TLCEval([k \in DOMAIN t |-> t[k].rE]),
        dw |-> IF kind = "gru" THEN t[1].dw \o t[2].dw \o t[3].dw ELSE t[1].dw, not |-> IF kind = "gru" THEN t[1].not \o t[2].not \o t[3].not ELSE t[1].not]
(* What a unit hands back to input j. *)
UBack(kind, v, n, g, j) == SumTo(LAMBDA k : Mul(g[k], Gate(v, k - 1, n)[j]), Gates(kind))
=====================================================================================
