-------------------------------- MODULE Training --------------------------------
(* One network, used from one thread: blocking trainings, evaluations, predictions,*)
(* shuffles, best-so-far statistics, automatic save, anomalies                     *)
(* (C03 C04 C05 C06 C07 C08 C10 C11 C12 C21).                                      *)
(*                                                                                 *)
(* The machine is a labelled transition system.  Its labels are the interactions   *)
(* that can be observed from outside: calls and returns of the public interface,   *)
(* and the data the network is asked to process.  Faults(s, ev) is the guard of    *)
(* label ev in state s, as the set of reasons why ev must not happen (empty: the   *)
(* step is allowed); Apply(s, ev) is its effect.  Each reason starts with the      *)
(* property it belongs to.  MCTraining explores the machine exhaustively for small *)
(* constants; TrainingTrace runs it along traces recorded from the implementation. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Stats, Wait

SeqSet(q) == {q[i] : i \in DOMAIN q}
Distinct(q) == Cardinality(SeqSet(q)) = Len(q)
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
If(c, x) == IF c THEN {x} ELSE {}
Range(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]          \* the sequence a, a+1, ..., b
LastOf(q) == q[Len(q)]

-----------------------------------------------------------------------------
(* A data set d: [prob, nat, n, nt, st, sv, R, des, lim, nin, nout]              *)
(*   nat "non" | "seq" | "ts"; n, nt: sizes of the training and test sets;       *)
(*   st, sv: lengths of the training and test sequences (sequential data);       *)
(*   R: recurrences of a time series; des[j+1]: expected outputs of test datum j *)
(*   in quarters; lim: separator or precision.  Data are numbered from 0.        *)
RECURSIVE Starts(_, _)
Starts(lens, from) == IF lens = <<>> THEN {} ELSE {from} \cup Starts(Tail(lens), from + Head(lens))
RECURSIVE Ends(_, _)
Ends(lens, from) == IF lens = <<>> THEN {} ELSE {from + Head(lens) - 1} \cup Ends(Tail(lens), from + Head(lens))

Fits(net, d) == net.nin = d.nin /\ net.nout = d.nout
RefusedTraining(net, d, b) == \/ ~Fits(net, d)
                              \/ b < 1
                              \/ b > d.n
                              \/ b # 1 /\ d.nat # "non"
OrderTag(d) == CASE d.nat = "non" -> "C05: " [] d.nat = "seq" -> "C06: " [] OTHER -> "C07: "

(* The window a time series requires before training on datum id: the R preceding data (as many as  *)
(* there are), in order, from a reset.                                                              *)
Window(d, id) == Range(Max(0, id - d.R), id)

-----------------------------------------------------------------------------
NoStats == [acc |-> -1000000, wr |-> -1000000, f1 |-> -1000000, mae |-> -100000, rm2 |-> -100, rm3 |-> -1000]
BestOf(m, st) == LET mx(f) == Max(m[f], st[f])
                     mn(f) == IF m[f] < 0 \/ st[f] < m[f] THEN st[f] ELSE m[f]
                 IN [acc |-> mx("acc"), wr |-> mx("wr"), f1 |-> mx("f1"), mae |-> mn("mae"), rm2 |-> mn("rm2"), rm3 |-> mn("rm3")]

Init0(cfg) ==
    [cfg  |-> cfg,              \* [nin, nout, autosave, data]
     mode |-> "idle",           \* see Apply
     job  |-> "none",           \* "train" "evaluate" "predict"
     d |-> 1, wait |-> [k |-> "never"], b |-> 1, f |-> 0,   \* the current call
     ep |-> 0, pos |-> 0,       \* current epoch, data consumed in it
     used |-> <<>>,             \* data presented in this epoch, in order
     win |-> <<>>,              \* data presented since the last reset
     learnt |-> <<>>,           \* data trained on in this epoch
     last |-> <<>>,             \* ids of the last forward pass
     cover |-> [i \in 1..Len(cfg.data) |-> <<>>],   \* data trained on in the last complete epochs, per data set
     order |-> [i \in 1..Len(cfg.data) |-> <<>>],   \* last observed order, per data set
     shuf |-> [i \in 1..Len(cfg.data) |-> "given"], \* "given" "shuffled" "any"
     ei |-> 0, tally |-> EmptyTally(1), cutEval |-> FALSE,
     steps |-> 0, evals |-> 0, ntr |-> 0, epochs |-> 0,
     out |-> <<>>,              \* last output, for predictions
     n |-> 0, well |-> 0, abs |-> 0,    \* latest evaluation (n = 0: none)
     latest |-> EmptyTally(1),
     statsSeen |-> TRUE,        \* the statistics of the latest evaluation have been observed
     obs |-> NoStats, best |-> NoStats,
     bestAcc |-> <<-1, 1>>,     \* best accuracy so far, as a fraction
     mustSave |-> FALSE, saves |-> 0,
     t0 |-> 0, now |-> 0, nan |-> FALSE,
     void |-> FALSE]            \* an anomaly cut the latest evaluation: it has no results

Data(s) == s.cfg.data[s.d]
(* -1 epochs completed until the first epoch starts *)
Observation(s) == [ep |-> s.ep - 1, n |-> s.n, well |-> s.well, abs |-> s.abs, ms |-> s.now - s.t0]
EvalAfter(s) == s.f > 0 /\ s.ep % s.f = 0

-----------------------------------------------------------------------------
(* Internal progress, up to the next visible interaction.                        *)
(*   "decide": between two epochs      "step": between two batches               *)
(*   "eval":   an evaluation is under way                                        *)
(*   "fwd":    a batch is to be presented   "learn": ... and then trained on     *)
(*   "maybeLearn": time series: the datum just presented may be trained on       *)
(*   "cut":    the training ends within an epoch; it may still evaluate          *)
(*   "end":    the call is to return                                             *)
BeginEvaluation(s) == [s EXCEPT !.mode = "eval", !.ei = 0, !.tally = EmptyTally(Data(s).nout)]
NextEpoch(s) == [s EXCEPT !.mode = "decide", !.ep = @ + 1]
EndEpoch(s, complete) ==
    LET s1 == [s EXCEPT !.cover[s.d] = IF complete THEN Append(@, SeqSet(s.learnt)) ELSE <<>>,
                        !.epochs = IF complete THEN @ + 1 ELSE @]
    IN IF ~complete THEN [s1 EXCEPT !.mode = "cut"]
       ELSE IF EvalAfter(s) THEN BeginEvaluation(s1) ELSE NextEpoch(s1)
EndEvaluation(s) ==
    LET t == s.tally
        better == t.well * s.bestAcc[2] > s.bestAcc[1] * t.n
        s1 == [s EXCEPT !.n = t.n, !.well = t.well, !.abs = t.abs, !.latest = t, !.statsSeen = FALSE,
                        !.bestAcc = IF better THEN <<t.well, t.n>> ELSE @,
                        !.mustSave = better /\ s.cfg.autosave]
    IN IF s.job = "evaluate" \/ s.cutEval THEN [s1 EXCEPT !.mode = "end"] ELSE NextEpoch(s1)

RECURSIVE Settle(_)
Settle(s) ==
    CASE s.mode = "decide" ->
            IF s.nan \/ Over(s.wait, Observation(s)) THEN [s EXCEPT !.mode = "end"]
            ELSE Settle([s EXCEPT !.mode = "step", !.pos = 0, !.used = <<>>, !.win = <<>>, !.learnt = <<>>,
                                  !.shuf[s.d] = "shuffled"])
      [] s.mode = "step" ->
            IF s.pos + s.b > Data(s).n THEN Settle(EndEpoch(s, ~s.nan))
            ELSE IF s.nan \/ Over(s.wait, Observation(s)) THEN EndEpoch(s, FALSE)
            ELSE [s EXCEPT !.mode = "fwd"]
      [] s.mode = "eval" /\ s.nan ->             \* after a non-finite output nothing more is presented
            LET s1 == [s EXCEPT !.void = @ \/ s.ei > 0 \/ s.job = "evaluate"]
            IN IF s.job = "evaluate" \/ s.cutEval THEN [s1 EXCEPT !.mode = "end", !.shuf[s.d] = "any"] ELSE Settle(NextEpoch(s1))
      [] s.mode = "eval" /\ ~s.nan /\ s.ei = Data(s).nt -> Settle(EndEvaluation(s))
      [] OTHER -> s

(* An optional interaction that did not come: the state in which label ev is judged. *)
View(s, ev) ==
    CASE s.mode = "maybeLearn" /\ ev.e \in {"fwd", "ev", "ret", "saved"} ->
            Settle([s EXCEPT !.mode = "step", !.pos = @ + s.b])
      [] OTHER -> s
View2(s, ev) ==
    LET v == View(s, ev)
    IN IF v.mode = "cut" /\ ev.e = "ev" /\ EvalAfter(v) /\ ~v.nan THEN BeginEvaluation([v EXCEPT !.cutEval = TRUE]) ELSE v

-----------------------------------------------------------------------------
(* Guards *)
Unexpected(s, ev) ==     \* why a label that the mode does not allow is wrong
    CASE s.mode \in {"end", "cut"} /\ s.nan -> "C12: the training goes on after a non-finite output"
      [] s.mode = "cut" -> "C04: the training goes on although its stop criterion holds"
      [] s.mode = "end" /\ s.job = "train" ->
            IF s.wait.k = "ep" THEN "C03,C04: an epoch too many" ELSE "C04: the training goes on although its stop criterion holds"
      [] s.mode = "fwd" /\ ev.e = "ret" ->
            IF s.wait.k = "ep" THEN "C03,C04: the training ends before its last epoch is complete" ELSE "C04,C03: the training ends before its stop criterion holds"
      [] s.mode = "refused" -> "C08: data presented although the call had to be refused"
      [] s.mode = "eval" /\ s.ei = 0 -> "C03: an evaluation is missing"
      [] s.mode = "eval" -> "C03: an evaluation does not present the whole test set"
      [] s.mode = "learn" -> "C03: a batch was presented but not trained on"
      [] OTHER -> "C03: " \o ev.e \o " while " \o s.mode

NeedsSave(s) == s.mustSave /\ ~s.nan

FwdFaults(s, ev) ==
    LET d == Data(s) ids == ev.ids tag == OrderTag(d) IN
    CASE d.nat = "non" ->
            If(Len(ids) # s.b, tag \o "a batch has not the announced number of data")
            \cup If(~Distinct(ids) \/ SeqSet(ids) \cap SeqSet(s.used) # {}, tag \o "a datum is presented twice in an epoch")
            \cup If(~(SeqSet(ids) \subseteq 0..(d.n - 1)), tag \o "the inputs are not an average of training data")
            \cup If(~ev.reset, "C22,C05: the temporal state is not reset for an independent datum")
      [] d.nat = "seq" ->
            IF Len(ids) # 1 \/ ~(SeqSet(ids) \subseteq 0..(d.n - 1)) THEN {tag \o "not one training datum"} ELSE
            LET id == ids[1]
                atStart == s.used = <<>> \/ LastOf(s.used) \in Ends(d.st, 0)
            IN If(id \in SeqSet(s.used), tag \o "a datum is presented twice in an epoch")
               \cup If(atStart /\ id \notin Starts(d.st, 0), tag \o "a sequence is not presented from its beginning")
               \cup If(~atStart /\ id # LastOf(s.used) + 1, tag \o "a sequence is interrupted or out of order")
               \cup If(ev.reset # (id \in Starts(d.st, 0)), "C06,C19: the temporal state is reset elsewhere than at the start of a sequence")
      [] d.nat = "ts" ->
            If(Len(ids) # 1 \/ ~(SeqSet(ids) \subseteq 0..(d.n - 1)), tag \o "not one training datum")

LearnFaults(s, ev) ==
    LET d == Data(s) IN
    If(ev.ids # s.last, "C05: the expected outputs are not those of the presented data")
    \cup (IF d.nat # "ts" THEN {} ELSE
            If(s.last # <<>> /\ s.win # Window(d, s.last[1]), "C07: a datum is trained on without its preceding data from a reset")
            \cup If(SeqSet(s.last) \cap SeqSet(s.learnt) # {}, "C07: a datum is trained on twice in an epoch"))

Scored(d, id) == d.nat # "seq" \/ id \in Ends(d.sv, 0)

EvFaults(s, ev) ==
    LET d == Data(s) IN
    If(ev.id # s.ei, "C03,C06,C07: the test data are not presented in order")
    \cup If(d.nat = "seq" /\ ev.reset # (ev.id \in Starts(d.sv, 0)), "C06,C19: the temporal state is reset elsewhere than at the start of a test sequence")
    \cup If(d.nat = "ts" /\ ev.reset # (ev.id = 0), "C07,C19: the temporal state is reset elsewhere than at the start of the test series")

NotANumber == 2000000000     \* how the harness writes it
ObsFaults(s, ev) ==
    IF s.nan THEN (IF ~s.void THEN {} ELSE
        If(\E x \in DOMAIN ev.st : ev.st[x] # NotANumber, "C12: an evaluation that an anomaly cut reports a result")
        \cup If(s.statsSeen /\ ev.mx # s.best, "C12,C11: an anomaly changes the best statistics"))
    ELSE
    (IF s.statsSeen THEN If(ev.st # s.obs, "C10,C08: statistics changed without evaluation")
                    ELSE {"C10: wrong " \o x : x \in StatFaults(s.latest, ev.st)})
    \cup If(ev.mx # (IF s.statsSeen THEN s.best ELSE BestOf(s.best, ev.st)), "C11: the best statistics are not those of the best evaluation")

(* The order in which a data set presents its training data, as its accessors show it *)
OrderFaults(s, ev) ==
    LET d == s.cfg.data[ev.d] ids == ev.ids tag == OrderTag(d)
        N == d.n
        trained == {i \in 1..Len(ids) : ev.need[i]}
        startOf(i) == CHOOSE j \in 1..i : ev.first[j] /\ \A k \in (j+1)..i : ~ev.first[k]
        win(i) == IF \E j \in 1..i : ev.first[j] THEN SubSeq(ids, startOf(i), i) ELSE <<-1>>
    IN
    If(Len(ids) # N \/ ~(SeqSet(ids) \subseteq 0..(N-1)), tag \o "not the training data")
    \cup If(ev.lab # ids, "C05: a datum is not associated with its own expected outputs")
    \cup If(d.prob = "cls" /\ ev.cls # ids, "C05: a datum is not associated with its own class")
    \cup If(ev.tids # Range(0, d.nt - 1) \/ ~ev.tlab, "C05: the test data have changed")
    \cup If(\E j \in DOMAIN ev.tneed : ev.tneed[j] # Scored(d, j - 1), tag \o "the test data announced as scored are not those that count")
    \cup (IF d.nat = "non" THEN {} ELSE If(\E j \in DOMAIN ev.tfirst : ev.tfirst[j] # (IF d.nat = "seq" THEN (j - 1) \in Starts(d.sv, 0) ELSE j = 1), tag \o "the start of a test sequence is not where it is announced"))
    \cup (IF Len(ids) # N THEN {} ELSE
          CASE s.shuf[ev.d] = "given" -> If(ids # Range(0, N - 1), tag \o "the data are not in the given order")
            [] s.shuf[ev.d] = "any" -> {}
            [] d.nat = "non" -> If(~Distinct(ids), tag \o "a shuffle is not a permutation")
            [] d.nat = "seq" ->
                  If(~Distinct(ids), tag \o "a shuffle is not a permutation")
                  \cup If(\E i \in 1..N : IF i = 1 \/ ids[Max(1, i-1)] \in Ends(d.st, 0) THEN ids[i] \notin Starts(d.st, 0) ELSE ids[i] # ids[i-1] + 1,
                          tag \o "a sequence is cut or out of order")
                  \cup If(\E i \in 1..N : ev.first[i] # (ids[i] \in Starts(d.st, 0)), tag \o "the start of a sequence is not where it is announced")
                  \cup If(\E i \in 1..N : ~ev.need[i], tag \o "a datum of a sequence is not trained on")
            [] d.nat = "ts" ->
                  If(\E i \in trained : win(i) # Window(d, ids[i]), tag \o "a datum is trained on without its preceding data from a reset")
                  \cup If(\E i, j \in trained : i # j /\ ids[i] = ids[j], tag \o "a datum is trained on twice in an epoch"))

BatchFaults(s, ev) ==
    LET want == [i \in 1..ev.b |-> s.order[ev.d][ev.i + i]] IN
    If(\E x \in SeqSet(want) \cup SeqSet(ev.ids) : Cardinality({i \in 1..ev.b : want[i] = x}) # Cardinality({i \in DOMAIN ev.ids : ev.ids[i] = x}),
       "C05: a batch is not the average of its data")
    \cup If(ev.lab # ev.ids, "C05: the expected outputs of a batch are not those of its data")

(* Over R+1 consecutive complete epochs every datum of a time series is trained on. *)
CoverFaults(s) ==
    {x \in {"C07: a datum is not trained on in R+1 consecutive epochs"} :
        \E i \in 1..Len(s.cfg.data) : LET d == s.cfg.data[i] c == s.cover[i] IN
            /\ d.nat = "ts" /\ Len(c) >= d.R + 1
            /\ UNION {c[k] : k \in (Len(c) - d.R)..Len(c)} # 0..(d.n - 1)}

Faults(s0, ev) ==
    LET s == View2(s0, ev) IN
    (IF NeedsSave(s) /\ ev.e \notin {"saved"} THEN {"C11: the network is better than ever but was not saved"} ELSE {}) \cup
    CASE ev.e = "call" -> If(s.mode # "idle", "C03: call while " \o s.mode)
      [] ev.e = "fwd" -> IF s.mode = "fwd" THEN FwdFaults(s, ev) ELSE {Unexpected(s, ev)}
      [] ev.e = "learn" -> IF s.mode \in {"learn", "maybeLearn"} THEN LearnFaults(s, ev)
                           ELSE IF s.nan THEN {"C12: parameters are updated after a non-finite output"} ELSE {"C03,C08: training outside of a training step"}
      [] ev.e = "ev" -> IF s.mode = "predict" THEN {}
                        ELSE IF s.mode = "eval" THEN EvFaults(s, ev) ELSE {Unexpected(s, ev)}
      [] ev.e = "st" -> IF s.mode = "refused" THEN {} ELSE ObsFaults(s, ev)
      [] ev.e = "saved" -> If(~NeedsSave(s) /\ ~s.nan, "C11: the network is saved although it is not better than ever, or automatic saving is off")
                           \cup If(NeedsSave(s) /\ (ev.steps # s.steps \/ ev.evals # s.evals), "C11: the saved network is not the one of the best evaluation")
                           \cup If(ev.training \/ ~ev.loads, "C13: an automatically saved network does not load as an idle network")
      [] ev.e = "ret" ->
            (IF s.mode = "refused" THEN If(~ev.threw, "C08: a call that had to be refused is accepted")
             ELSE If(ev.threw, "C08,C03: a valid call is refused")
                  \cup If(~ev.threw /\ s.mode \notin {"end", "cut"}, Unexpected(s, ev)))
            \cup If(ev.training, "C03,C08: the network is not idle after the call")
            \cup If(ev.nan # s.nan, "C12: " \o (IF s.nan THEN "a non-finite output is not reported" ELSE "finite outputs are reported as an anomaly"))
            \cup If(~s.nan /\ ev.ntr # s.ntr, "C03,C08: the number of trainings is not the number of training steps")
            \cup If(s.job = "predict" /\ s.out # <<>> /\ ev.cls # ArgMax(s.out) - 1, "C21: the predicted class is not the largest output")
            \cup If(s.job = "predict" /\ ~ev.same, "C21: the output returned is not the output of the last layer")
            \cup ObsFaults(s, ev)
      [] ev.e \in {"shuffle", "unshuffle"} -> {}
      [] ev.e = "order" -> OrderFaults(s, ev)
      [] ev.e = "batch" -> BatchFaults(s, ev)
      [] ev.e = "content" -> If(~ev.same, "C05: the data set was altered")
      [] ev.e = "done" -> If(s.mode # "idle", "C03: scenario ends while " \o s.mode)
      [] OTHER -> {"*: " \o ev.e}

-----------------------------------------------------------------------------
(* Effects *)
ApplyCall(s, ev) ==
    LET d == s.cfg.data[ev.d]
        base == [s EXCEPT !.job = ev.op, !.d = ev.d, !.cutEval = FALSE]
    IN CASE ev.op = "train" ->
              IF RefusedTraining(s.cfg, d, ev.b) THEN [base EXCEPT !.mode = "refused"]
              ELSE LET c == [base EXCEPT !.wait = ev.wait, !.b = ev.b, !.f = ev.f, !.t0 = s.now, !.ep = 0, !.epochs = 0]
                   IN Settle(IF ev.f > 0 THEN BeginEvaluation(c) ELSE NextEpoch(c))
         [] ev.op = "evaluate" ->
              IF ~Fits(s.cfg, d) THEN [base EXCEPT !.mode = "refused"] ELSE Settle(BeginEvaluation(base))
         [] ev.op = "predict" -> [base EXCEPT !.mode = "predict", !.out = <<>>]

ApplyObs(s, ev) == IF s.nan THEN s ELSE
    [s EXCEPT !.best = IF s.statsSeen THEN @ ELSE BestOf(@, ev.st), !.obs = ev.st, !.statsSeen = TRUE]

Apply(s0, ev) ==
    LET s == View2(s0, ev) IN
    CASE ev.e = "call" -> ApplyCall(s, ev)
      [] ev.e = "fwd" ->
            LET s1 == [s EXCEPT !.last = ev.ids, !.used = @ \o ev.ids, !.now = ev.t, !.nan = @ \/ ev.nan,
                                !.win = IF ev.reset THEN ev.ids ELSE @ \o ev.ids]
            IN IF ev.nan THEN Settle([s1 EXCEPT !.mode = "step", !.pos = @ + s.b])
               ELSE [s1 EXCEPT !.mode = IF Data(s).nat = "ts" THEN "maybeLearn" ELSE "learn"]
      [] ev.e = "learn" ->
            Settle([s EXCEPT !.mode = "step", !.pos = @ + s.b, !.steps = @ + 1, !.ntr = @ + 1, !.learnt = @ \o ev.ids, !.now = ev.t])
      [] ev.e = "ev" ->
            LET s1 == [s EXCEPT !.evals = @ + 1, !.now = ev.t, !.nan = @ \/ ev.nan]
            IN IF s.mode = "predict" THEN [s1 EXCEPT !.mode = "end", !.out = IF ev.nan THEN <<>> ELSE ev.out]
               ELSE Settle([s1 EXCEPT !.ei = @ + 1,
                              !.tally = IF Scored(Data(s), ev.id) /\ ~ev.nan
                                        THEN Score(@, Data(s).prob, ev.out, Data(s).des[ev.id + 1], Data(s).lim) ELSE @])
      [] ev.e = "st" -> ApplyObs(s, ev)
      [] ev.e = "saved" -> [s EXCEPT !.mustSave = FALSE, !.saves = @ + 1]
      [] ev.e = "ret" -> ApplyObs([s EXCEPT !.mode = "idle", !.job = "none", !.cover[s.d] = IF s.mode = "cut" THEN <<>> ELSE @], ev)
      [] ev.e = "shuffle" -> [s EXCEPT !.shuf[ev.d] = "shuffled"]
      [] ev.e = "unshuffle" -> [s EXCEPT !.shuf[ev.d] = "given", !.cover[ev.d] = @]
      [] ev.e = "order" ->
            [s EXCEPT !.order[ev.d] = ev.ids,
                      !.cover[ev.d] = IF ev.fresh THEN Append(@, {ev.ids[i] : i \in {j \in DOMAIN ev.ids : ev.need[j]}}) ELSE @]
      [] OTHER -> s
=================================================================================
