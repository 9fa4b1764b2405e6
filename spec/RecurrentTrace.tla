------------------------------- MODULE RecurrentTrace -------------------------------
(* Recorded sequences through real recurrent layers, against Recurrent.                 *)
(* st.hyps: for every set D of deviations still consistent with the trace, the memory    *)
(* and previous changes of all units under D.  A trace no D explains is refused.         *)
EXTENDS Recurrent, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, bad, cov, cnt
KindOf(st, i) == st.Ls[i].kind
Keys(kinds) == (IF "rec" \in kinds THEN {"rec-reset", "recurrent-bias-step"} ELSE {}) \cup (IF "gru" \in kinds THEN {"gru-reset", "recurrent-bias-step", "gru-combination", "gru-gradient"} ELSE {})
(* none, all, or all but one of the known deviations *)
Suspects(K) == {{}, K} \cup {K \ {k} : k \in K}
Zeros(L) == [j \in 1..(IF L.kind = "gru" THEN 3 * (L.nin + 2) ELSE IF L.kind = "rec" THEN L.nin + 2 ELSE L.nin + 1) |-> 0]
Begin(ev) == LET Ls == Build(ev.models) IN
    [mode |-> "on", Ls |-> Ls, models |-> ev.models, lr |-> ev.lr, mom |-> ev.mom, w |-> <<>>,
     hyps |-> [D \in Suspects(Keys({Ls[i].kind : i \in DOMAIN Ls})) |->
               [mem |-> [i \in DOMAIN Ls |-> [o \in 1..Ls[i].nout |-> Fresh(Gates(Ls[i].kind))]], pd |-> [i \in DOMAIN Ls |-> [o \in 1..Ls[i].nout |-> Zeros(Ls[i])]]]]]
Act(st, i) == IF KindOf(st, i) = "gru" THEN "tanh" ELSE st.models[i + 1].act
Near(a, b, tol) == Abs(a - b) <= tol + Max2(Abs(a), Abs(b)) \div 256
RECURSIVE Largest(_, _)
Largest(q, i) == IF i > Len(q) THEN 0 ELSE Max2(Abs(q[i]), Largest(q, i + 1))
In(ev, i) == IF i = 1 THEN ev.in ELSE ev.outs[i - 1]
OutTol(ev, i) == 12 + Len(In(ev, i)) + Largest(In(ev, i), 1) \div 1024
ErrTol(ev, i) == 12 + Largest(ev.errs[i], 1) \div 128
(* a fully connected layer in between: no memory *)
FcUnit(a, v, x) == LET q == SumTo(LAMBDA j : Mul(v[j], x[j]), Len(x)) + v[Len(x) + 1] IN [o |-> F(a, q), s |-> <<q>>, own |-> <<0>>, h |-> 0, z |-> 0, c |-> 0]
FcLearn(a, v, x, w, e, lr, mom, pd) ==
    LET g == Mul(e, Slope(a, w.s[1])) n == Len(x)
    IN [g |-> <<g>>, rE |-> <<0>>, dw |-> [j \in 1..n + 1 |-> (IF j > n THEN LrMul(lr, g) ELSE Mul(LrMul(lr, g), x[j])) + Mul(mom, pd[j])], not |-> [j \in 1..n + 1 |-> 0]]
Ways(st, ev, D) == [i \in DOMAIN st.Ls |-> TLCEval([o \in 1..st.Ls[i].nout |->
    IF KindOf(st, i) = "fc" THEN FcUnit(Act(st, i), st.w[i][o], In(ev, i))
    ELSE Unit(D, KindOf(st, i), Act(st, i), st.w[i][o], In(ev, i), st.hyps[D].mem[i][o], ev.reset)])]
Learns(st, ev, D, w) == [i \in DOMAIN st.Ls |-> TLCEval([o \in 1..st.Ls[i].nout |->
    IF KindOf(st, i) = "fc" THEN FcLearn(Act(st, i), st.w[i][o], In(ev, i), w[i][o], ev.errs[i][o], st.lr, st.mom, st.hyps[D].pd[i][o])
    ELSE Learn(D, KindOf(st, i), Act(st, i), st.w[i][o], In(ev, i), st.hyps[D].mem[i][o], ev.reset, w[i][o], ev.errs[i][o], st.lr, st.mom, st.hyps[D].pd[i][o])])]
BackOf(st, i, t, j) == SumTo(LAMBDA o : IF KindOf(st, i) = "fc" THEN Mul(t[i][o].g[1], st.w[i][o][j]) ELSE UBack(KindOf(st, i), st.w[i][o], st.Ls[i].nin, t[i][o].g, j), st.Ls[i].nout)
Units(st) == UNION {{i} \X (1..st.Ls[i].nout) : i \in DOMAIN st.Ls}
Name(st, p) == "unit " \o ToString(p[2] - 1) \o " of layer " \o ToString(p[1]) \o " (" \o KindOf(st, p[1]) \o ")"
(* faults of an event under D, and the memory after it *)
Judge(st, ev, D) ==
    LET w == TLCEval(Ways(st, ev, D))
        f1 == {p \in Units(st) : ~Near(ev.outs[p[1]][p[2]], w[p[1]][p[2]].o, OutTol(ev, p[1]))}
        mem(rE(_, _)) == TLCEval([i \in DOMAIN st.Ls |-> TLCEval([o \in 1..st.Ls[i].nout |-> [o |-> ev.outs[i][o], s |-> w[i][o].s, rE |-> rE(i, o)]])])
    IN IF f1 # {} THEN LET p == CHOOSE q \in f1 : TRUE IN [why |-> {"C19: the output of " \o Name(st, p) \o " is " \o ToString(ev.outs[p[1]][p[2]]) \o " instead of " \o ToString(w[p[1]][p[2]].o)}]
       ELSE IF ev.e = "fwd" THEN [why |-> {}, mem |-> mem(LAMBDA i, o : IF ev.reset THEN Fresh(Gates(KindOf(st, i))).rE ELSE st.hyps[D].mem[i][o].rE), pd |-> st.hyps[D].pd]
       ELSE LET t == TLCEval(Learns(st, ev, D, w))
                f2 == TLCEval({p \in Units(st) : \E j \in DOMAIN t[p[1]][p[2]].dw : ~Near(ev.dw[p[1]][p[2]][j], t[p[1]][p[2]].dw[j], ErrTol(ev, p[1]))})
                f3 == {i \in 2..Len(st.Ls) : \E j \in 1..st.Ls[i].nin : ~Near(ev.errs[i - 1][j], BackOf(st, i, t, j), st.Ls[i].nout * ErrTol(ev, i))}
            IN [why |-> (IF f2 = {} THEN {} ELSE LET p == CHOOSE q \in f2 : TRUE IN {"C18: the weights of " \o Name(st, p) \o " change by " \o ToString(ev.dw[p[1]][p[2]]) \o " instead of " \o ToString(t[p[1]][p[2]].dw)})
                        \cup {"C17: layer " \o ToString(i) \o " (" \o KindOf(st, i) \o ") hands back " \o ToString(ev.errs[i - 1]) \o " instead of " \o ToString([j \in 1..st.Ls[i].nin |-> BackOf(st, i, t, j)]) : i \in f3},
                mem |-> mem(LAMBDA i, o : t[i][o].rE),
                pd |-> TLCEval([i \in DOMAIN st.Ls |-> TLCEval([o \in 1..st.Ls[i].nout |-> TLCEval([j \in DOMAIN ev.dw[i][o] |-> ev.dw[i][o][j] - t[i][o].not[j]])])])]
Judged(st, ev) == TLCEval([D \in DOMAIN st.hyps |-> Judge(st, ev, D)])
Live(j) == {D \in DOMAIN j : j[D].why = {}}
Widest(S) == CHOOSE D \in S : \A E \in S : Cardinality(E) <= Cardinality(D)
Top(st) == Len(st.Ls)
Faults(st, ev) ==
    IF \E i \in DOMAIN st.Ls : Len(ev.outs[i]) # st.Ls[i].nout THEN {"C16,C19: wrong number of outputs"}
    ELSE IF ev.e = "step" /\ \E o \in 1..st.Ls[Top(st)].nout : ~Near(ev.errs[Top(st)][o], 2 * (ev.des[o] - ev.outs[Top(st)][o]), 8) THEN {"C17: the error of the output is not twice the difference"}
    ELSE LET j == Judged(st, ev) IN IF Live(j) = {} THEN j[Widest(DOMAIN j)].why ELSE {}
Arch1(st, ev) == IF [i \in DOMAIN st.Ls |-> [in |-> st.Ls[i].in, out |-> st.Ls[i].out, nin |-> st.Ls[i].nin, neurons |-> st.Ls[i].neurons, params |-> st.Ls[i].params]] # ev.ls
                 THEN {"C16,C20: the layers are not those of the description"} ELSE {}
LGuard(st, ev) ==
    CASE ev.e \in {"done", "setw"} -> {}
      [] ev.e = "arch" -> Arch1(st, ev)
      [] ev.e = "fwd" -> (IF ev.w # st.w THEN {"C18,C21: a prediction changes parameters"} ELSE {}) \cup Faults(st, ev)
      [] ev.e = "copied" -> IF ev.w # st.w THEN {"C13,C14: parameters differ after " \o ev.how} ELSE {}
      [] ev.e = "step" -> Faults(st, ev)
LEffect(st, ev) ==
    CASE ev.e = "setw" -> [st EXCEPT !.w = ev.w]
      [] ev.e \in {"fwd", "step"} -> LET j == Judged(st, ev) IN [st EXCEPT !.w = ev.w, !.hyps = TLCEval([D \in Live(j) |-> [mem |-> j[D].mem, pd |-> j[D].pd]])]
      [] OTHER -> st
LAfter(st) == {}
LCover(st, ev) == IF ev.e \in {"fwd", "step"} THEN {<<ev.e, KindOf(st, i), Act(st, i), ev.reset, i = 1, st.mom > 0>> : i \in DOMAIN st.Ls} ELSE {<<ev.e>>}
Prop(k) == IF k \in {"rec-reset", "gru-reset", "gru-combination"} THEN "C19" ELSE "C18"
(* deviations without which the trace up to here has no explanation (told at the end) *)
LKnown(st, ev) == IF ev.e # "done" THEN {} ELSE {<<Prop(k), k>> : k \in {q \in UNION DOMAIN st.hyps : \A D \in DOMAIN st.hyps : q \in D}}
R == INSTANCE Runner WITH Guard <- LGuard, Effect <- LEffect, After <- LAfter, Cover <- LCover, Known <- LKnown
Spec == R!Spec
Report == R!Report
=====================================================================================
