-------------------------------- MODULE LayersTrace ---------------------------------
(* Recorded passes through real layers, against Layers.                                 *)
EXTENDS Layers, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, bad, cov, cnt
Begin(ev) == [mode |-> "on", Ls |-> Build(ev.models), models |-> ev.models, lr |-> ev.lr, mom |-> ev.mom, w |-> <<>>, pd |-> <<>>, mask |-> <<>>, tiny |-> ev.lr < 64, rough |-> FALSE]
Act(st, i) == st.models[i + 1].act
Opts(st, i) == st.models[i + 1].opts
Exact(a) == a \in {"id", "relu"}
Near(a, b, tol) == Abs(a - b) <= tol + Max2(Abs(a), Abs(b)) \div 256
In(st, ev, i) == IF i = 1 THEN ev.in ELSE ev.outs[i - 1]
(* tables of the curved activations: a slope is known to about 1/256 *)
RECURSIVE Largest(_, _)
Largest(q, i) == IF i > Len(q) THEN 0 ELSE Max2(Abs(q[i]), Largest(q, i + 1))
Slack(n, m) == n * (1 + m \div 8192)                  \* n rounded terms, the factors up to m
Out(st, ev, i) == (IF Exact(Act(st, i)) THEN 8 ELSE 20) + Slack(st.Ls[i].win, Largest(In(st, ev, i), 1))
Fan(L) == Min2(L.nout, (L.ch * L.win) \div L.C)
Loose(st, ev, i) == (IF Exact(Act(st, i)) THEN 8 ELSE 20 + Largest(ev.errs[i], 1) \div 256) + Slack(Fan(st.Ls[i]), Largest(ev.errs[i], 1))
Delta(st, ev, i) == (IF Exact(Act(st, i)) THEN 8 ELSE 20 + Largest(ev.errs[i], 1) \div 256)
(* the weight of a small bias input is large: single precision leaves its steps with a grain of 2^-15 * 1000, *)
(* and so the momentum of the step after it (rough: the weights have been replaced since)                     *)
Grain(st, ev, i, n, j) == IF j > st.Ls[i].win /\ BiasUnit(st.Ls[i]) > 1 /\ (st.rough \/ Abs(st.w[i][n][j]) > 65536) THEN 100 + 75 * st.Ls[i].K ELSE Delta(st, ev, i)

LastOf(q) == q[Len(q)]
LayerSums(st, ev, i) == Sums(st.Ls[i], st.w[i], In(st, ev, i))
(* a ReLU at its corner: which slope applies is not decided by rounded sums *)
Corner(st, i, sums) == Act(st, i) = "relu" /\ \E o \in DOMAIN sums : Abs(sums[o]) <= 8
Raw(st, ev, i) == TLCEval(Outputs(st.Ls[i], Act(st, i), TLCEval(LayerSums(st, ev, i))))
Dropping(st, i) == Drops(Opts(st, i))
(* the outputs of layer i kept in a training pass: 1 kept, 0 silenced, 2 not known (the output is nearly zero anyway) *)
Mask(st, ev, i) == LET u == Raw(st, ev, i) IN
    [o \in DOMAIN u |-> IF ~Dropping(st, i) THEN 1
                        ELSE IF Abs(u[o]) <= Out(st, ev, i) + 4 THEN (IF ~ev.reset /\ st.mask # <<>> THEN st.mask[i][o] ELSE 2)
                        ELSE IF ev.outs[i][o] = 0 THEN 0 ELSE 1]
DropFaults(st, ev) ==
    UNION {IF ~Dropping(st, i) THEN {} ELSE
           LET u == Raw(st, ev, i) m == Mask(st, ev, i) IN
           {"C22: in training, output " \o ToString(o - 1) \o " of layer " \o ToString(i) \o " (" \o st.Ls[i].kind \o ") is " \o ToString(ev.outs[i][o]) \o ": neither " \o ToString(u[o]) \o " nor zero" :
               o \in {p \in DOMAIN u : ev.outs[i][p] # 0 /\ ~Near(ev.outs[i][p], u[p], Out(st, ev, i))}}
           \cup (IF Dropout(Opts(st, i)).v = 0 /\ \E o \in DOMAIN u : m[o] = 0 THEN {"C22: a dropout of zero silences an output"} ELSE {})
           \cup (IF ~ev.reset /\ st.mask # <<>> /\ \E o \in DOMAIN u : m[o] # 2 /\ st.mask[i][o] # 2 /\ m[o] # st.mask[i][o] THEN {"C22: the silenced outputs change within a sequence"} ELSE {})
           : i \in DOMAIN st.Ls}
OutTag(st, i) == IF Dropping(st, i) THEN "C22" ELSE "C16"
OutFaults(st, ev) ==
    IF \E i \in DOMAIN st.Ls : Len(ev.outs[i]) # st.Ls[i].nout THEN {"C16: a layer has another number of outputs than its declared shape"} ELSE
    (IF ev.e = "step" THEN DropFaults(st, ev) ELSE {}) \cup
    UNION {LET L == st.Ls[i] u == IF ev.e = "step" THEN Raw(st, ev, i) ELSE TLCEval(InUse(Opts(st, i), Raw(st, ev, i))) IN
           IF ev.e = "step" /\ Dropping(st, i) THEN {} ELSE
           {OutTag(st, i) \o ": output " \o ToString(o - 1) \o " of layer " \o ToString(i) \o " (" \o L.kind \o ") is " \o ToString(ev.outs[i][o]) \o " instead of " \o ToString(u[o]) : o \in {p \in 1..L.nout : ~Near(ev.outs[i][p], u[p], Out(st, ev, i))}} : i \in DOMAIN st.Ls}

Top(st) == Len(st.Ls)
FirstErr(st, ev) == IF \A o \in 1..st.Ls[Top(st)].nout : Near(ev.errs[Top(st)][o], 2 * (ev.des[o] - ev.outs[Top(st)][o]), 8) THEN {}
                    ELSE {"C17: the error of the output is not twice the difference between expected and actual output"}
PoolBack(L, x, e, b) ==   \* each window: one of its largest inputs gets the error, the others nothing
    \A o \in 0..L.nout - 1 : LET W == Window(L, o) m == MaxOf(L, x, o) IN
        \E i \in W : x[i + 1] >= m - 1 /\ Near(b[i + 1], e[o + 1], 2) /\ \A j \in W \ {i} : Abs(b[j + 1]) <= 2
(* Known finding (C17, lc1-back-kernel): a one-dimensional locally connected layer routes the error of      *)
(* neuron n as if it were at position n % positions instead of n / filters.                             *)
LcTerm(L, o, j) == LET c == j % L.C d == j \div L.C IN At(L, c, ((o % L.ox) * L.k) + d, 0)
LcBack(L, w, g, i) == SumTo(LAMBDA o : SumTo(LAMBDA j : IF LcTerm(L, o - 1, j - 1) = i THEN Mul(g[o], w[o][j]) ELSE 0, L.win), L.nout)
BackOk(st, ev, i, L, g) == \A q \in 1..L.nin : Near(ev.errs[i - 1][q], Back(L, st.w[i], g, q - 1), Loose(st, ev, i))
LcDeviates(st, ev, i, L, g) == L.kind = "lc1" /\ L.ch > 1 /\ ~BackOk(st, ev, i, L, g)
                               /\ \A q \in 1..L.nin : Near(ev.errs[i - 1][q], LcBack(L, st.w[i], g, q - 1), Loose(st, ev, i))
Tag(st, i, id) == IF Opts(st, i) = <<>> THEN id ELSE IF Dropping(st, i) THEN "C22" ELSE "C23"
StepFaults(st, ev) ==
    FirstErr(st, ev) \cup
    UNION {LET L == st.Ls[i] IN
        IF ~HasNeurons(L) THEN (IF i > 1 /\ ~PoolBack(L, In(st, ev, i), ev.errs[i], ev.errs[i - 1]) THEN {"C17: pooling hands back wrong errors"} ELSE {})
        ELSE LET sums == TLCEval(LayerSums(st, ev, i)) IN
        IF Corner(st, i, sums) \/ (\E o \in 1..L.nout : Mask(st, ev, i)[o] = 2) THEN {} ELSE
        LET g == TLCEval(Locals(L, Act(st, i), sums, Modified(Opts(st, i), st.w[i], ev.errs[i], Mask(st, ev, i)))) IN
        (IF i > 1 /\ (st.tiny \/ L.K = 1)
         THEN IF LcDeviates(st, ev, i, L, g) THEN {} ELSE {Tag(st, i, "C17") \o ": error " \o ToString(j - 1) \o " handed back by layer " \o ToString(i) \o " (" \o L.kind \o ") is " \o ToString(ev.errs[i - 1][j]) \o " instead of " \o ToString(Back(L, st.w[i], g, j - 1)) :
               j \in {q \in 1..L.nin : ~Near(ev.errs[i - 1][q], Back(L, st.w[i], g, q - 1), Loose(st, ev, i))}} ELSE {})
        \cup {Tag(st, i, "C18") \o ": weight " \o ToString(q) \o " of layer " \o ToString(i) \o " (" \o L.kind \o ") changes by " \o ToString(ev.dw[i][q[1]][q[2]]) \o " instead of "
                 \o ToString(Step(L, st.lr, Grad(L, In(st, ev, i), g, q[1], q[2])) + Mul(st.mom, st.pd[i][q[1]][q[2]])) :
              q \in {p \in (1..L.neurons) \X (1..L.win + 1) : ~Near(ev.dw[i][p[1]][p[2]], Step(L, st.lr, Grad(L, In(st, ev, i), g, p[1], p[2])) + Mul(st.mom, st.pd[i][p[1]][p[2]]), Grain(st, ev, i, p[1], p[2]))}}
        : i \in DOMAIN st.Ls}
(* Many passes at once: z[t][o] = 1 when output o of layer ev.layer was silenced in pass t; first[t] = 1 when pass t begins *)
(* a datum or sequence.  Frequencies are checked to six standard deviations and three: of each output, of each output together with  *)
(* the next one, and of each output in two consecutive draws (independent choices).                                       *)
Count(P(_), n) == Cardinality({t \in 1..n : P(t)})
Rare(c, n, num, den) == LET q == Abs((den * c) - (n * num)) - (3 * den) d == IF q < 0 THEN 0 ELSE q \div 16 IN d * d > ((36 * n * (num * (den - num))) \div 256) + 16   \* c of n, expected num/den
DrawFaults(st, ev) ==
    LET p16 == Dropout(Opts(st, ev.layer)).v \div 256 N == Len(ev.z) nout == st.Ls[ev.layer].nout
        fr == TLCEval(SelectSeq([t \in 1..N |-> t], LAMBDA t : ev.first[t] = 1)) n == Len(fr) IN
    IF ~ev.training THEN (IF \E t \in 1..N : \E o \in 1..nout : ev.z[t][o] = 1 THEN {"C22: an output is silenced when not training"} ELSE {}) ELSE
    (IF \E t \in 1..N : Len(ev.z[t]) # nout THEN {"C22: a layer has another number of outputs in training"} ELSE
     (IF \E t \in 2..N : ev.first[t] = 0 /\ ev.z[t] # ev.z[t - 1] THEN {"C22: the silenced outputs change within a sequence"} ELSE {})
     \cup {"C22: output " \o ToString(o - 1) \o " of layer " \o ToString(ev.layer) \o " is silenced " \o ToString(Count(LAMBDA t : ev.z[fr[t]][o] = 1, n)) \o " times in " \o ToString(n) \o " draws with probability " \o ToString(p16) \o "/16"
           : o \in {q \in 1..nout : Rare(Count(LAMBDA t : ev.z[fr[t]][q] = 1, n), n, p16, 16)}}
     \cup {"C22: outputs " \o ToString(o - 1) \o " and " \o ToString(o) \o " are not silenced independently"
           : o \in {q \in 1..nout - 1 : Rare(Count(LAMBDA t : ev.z[fr[t]][q] = 1 /\ ev.z[fr[t]][q + 1] = 1, n), n, p16 * p16, 256)}}
     \cup {"C22: output " \o ToString(o - 1) \o " is not silenced independently of the previous draw"
           : o \in {q \in 1..nout : Rare(Count(LAMBDA t : ev.z[fr[2 * t]][q] = 1 /\ ev.z[fr[(2 * t) - 1]][q] = 1, n \div 2), n \div 2, p16 * p16, 256)}})
Some(S) == IF S = {} THEN {} ELSE {CHOOSE x \in S : TRUE}
LGuard(st, ev) ==
    CASE ev.e = "done" -> {}
      [] ev.e = "setw" -> {}
      [] ev.e = "arch" -> IF Refused(st.Ls) THEN {"C20: an ill-formed description is accepted"} ELSE
                          IF [i \in DOMAIN st.Ls |-> [in |-> st.Ls[i].in, out |-> st.Ls[i].out, nin |-> st.Ls[i].nin, neurons |-> st.Ls[i].neurons, params |-> st.Ls[i].params]] # ev.ls
                          THEN {"C16,C20: the layers are not those of the description"} ELSE {}
      [] ev.e = "fwd" -> (IF ev.w # st.w THEN {"C18,C21: a prediction changes parameters"} ELSE {}) \cup Some(OutFaults(st, ev))
      [] ev.e = "copied" -> IF ev.w # st.w THEN {"C23,C13,C14: parameters differ after " \o ev.how} ELSE {}
      [] ev.e = "step" -> Some(OutFaults(st, ev)) \cup (LET f == StepFaults(st, ev) IN UNION {Some({x \in f : SubSeq(x, 1, 3) = t}) : t \in {"C17", "C18", "C22", "C23"}})
      [] ev.e = "draws" -> Some(DrawFaults(st, ev))
LEffect(st, ev) ==
    CASE ev.e = "setw" -> [st EXCEPT !.rough = st.mom > 0 /\ \E i \in DOMAIN st.w : \E n \in DOMAIN st.w[i] : Abs(LastOf(st.w[i][n])) > 65536, !.w = ev.w, !.pd = IF @ = <<>> THEN [i \in DOMAIN ev.w |-> [n \in DOMAIN ev.w[i] |-> [j \in DOMAIN ev.w[i][n] |-> 0]]] ELSE @]
      [] ev.e = "step" -> [st EXCEPT !.rough = FALSE, !.w = ev.w, !.pd = ev.dw, !.mask = TLCEval([i \in DOMAIN st.Ls |-> Mask(st, ev, i)])]
      [] ev.e = "copied" -> [st EXCEPT !.mask = <<>>]
      [] OTHER -> st
LAfter(st) == {}
LCover(st, ev) == IF ev.e \in {"fwd", "step"} THEN {<<ev.e, st.Ls[i].kind, Act(st, i), i = 1, st.Ls[i].C > 1, st.Ls[i].ch > 1, [j \in DOMAIN Opts(st, i) |-> Opts(st, i)[j].k], st.mom > 0>> : i \in DOMAIN st.Ls} ELSE {<<ev.e>>}
LKnown(st, ev) == IF ev.e # "step" THEN {} ELSE
    UNION {LET L == st.Ls[i] IN IF i = 1 \/ L.kind # "lc1" THEN {} ELSE
           LET sums == TLCEval(LayerSums(st, ev, i)) g == Locals(L, Act(st, i), sums, Modified(Opts(st, i), st.w[i], ev.errs[i], Mask(st, ev, i))) IN
           IF ~Corner(st, i, sums) /\ LcDeviates(st, ev, i, L, g) THEN {<<"C17", "lc1-back-kernel">>} ELSE {} : i \in DOMAIN st.Ls}
R == INSTANCE Runner WITH Guard <- LGuard, Effect <- LEffect, After <- LAfter, Cover <- LCover, Known <- LKnown
Spec == R!Spec
Report == R!Report
=====================================================================================
