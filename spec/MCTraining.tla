-------------------------------- MODULE MCTraining --------------------------------
(* Exhaustive exploration of the Training machine for small constants: every call,  *)
(* every order of the data, every outcome of an evaluation and an anomaly at every  *)
(* point.  The invariants restate the properties over counters of their own.        *)
EXTENDS Training
CONSTANTS Kind,        \* "non" | "seq" | "ts"
          MaxCalls, Anomalies, Outcomes

DataNon == [prob |-> "cls", nat |-> "non", n |-> 3, nt |-> 2, st |-> <<>>, sv |-> <<>>, R |-> 0,
            des |-> <<<<4, 0>>, <<0, 4>>>>, lim |-> 2, nin |-> 2, nout |-> 2]
DataSeq == [DataNon EXCEPT !.nat = "seq", !.st = <<2, 1>>, !.n = 3, !.sv = <<1, 1>>]
DataTs  == [DataNon EXCEPT !.nat = "ts", !.n = 2, !.R = 1]
D0 == CASE Kind = "non" -> DataNon [] Kind = "seq" -> DataSeq [] OTHER -> DataTs
Misfit == [D0 EXCEPT !.nin = 3]
Cfg == [nin |-> 2, nout |-> 2, autosave |-> TRUE, data |-> <<D0, Misfit>>]

Ep(v) == [k |-> "ep", v |-> v]
Acc(v) == [k |-> "acc", v |-> v]
And(x, y) == [k |-> "and", l |-> x, r |-> y]
Or(x, y) == [k |-> "or", l |-> x, r |-> y]
Waits == {Ep(0), Ep(1), Ep(2), Or(Acc(8), Ep(2)), And(Acc(0), Ep(1)), Or(Ep(2), [k |-> "mae", v |-> 0])}
Outs == IF Outcomes = 2 THEN {<<4, 0>>, <<-1, -2>>} ELSE {<<4, 0>>}

VARIABLES s, h     \* h: counters of the current call, and the history of evaluations
vars == <<s, h>>
NewCall == [eps |-> 0, batches |-> 0, evals |-> 0, ntr0 |-> 0, steps0 |-> 0, ended |-> FALSE]
Init == s = Init0(Cfg) /\ h = NewCall @@ [calls |-> 0, best |-> -1, saves |-> 0, anomaly |-> FALSE, epBatches |-> 0]

Sorted(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN q : i < j => q[i] < q[j]
Derived(t) == [acc |-> (1000000 * t.well) \div t.n, wr |-> WeightedRate6(t), f1 |-> F1Score6(t),
               mae |-> (25000 * t.abs) \div t.n,
               rm2 |-> CHOOSE r \in 0..2000 : SqrtMatches(r, 625 * t.sq, t.n, 1),
               rm3 |-> CHOOSE r \in 0..20000 : SqrtMatches(r, 62500 * t.sq, t.n, 1)]
StNow(v) == IF v.void THEN [x \in DOMAIN NoStats |-> NotANumber] ELSE IF v.statsSeen THEN v.obs ELSE Derived(v.latest)
MxNow(v) == IF v.statsSeen THEN v.best ELSE BestOf(v.best, Derived(v.latest))

Labels(v) ==
    CASE v.mustSave /\ ~v.nan -> {[e |-> "saved", steps |-> v.steps, evals |-> v.evals, training |-> FALSE, loads |-> TRUE]}
      [] v.mode = "idle" -> IF h.calls = MaxCalls THEN {} ELSE
            {[e |-> "call", op |-> "train", d |-> d, wait |-> w, b |-> b, f |-> f] : d \in {1, 2}, w \in Waits, b \in {0, 1, 2}, f \in {1, 2}}
            \cup {[e |-> "call", op |-> "train", d |-> 1, wait |-> Ep(2), b |-> b, f |-> 0] : b \in {1, 2}}
            \cup {[e |-> "call", op |-> "evaluate", d |-> d] : d \in {1, 2}}
            \cup {[e |-> "call", op |-> "predict", d |-> 1]}
      [] v.mode \in {"eval", "predict"} -> {[e |-> "ev", id |-> v.ei, reset |-> r, out |-> o, t |-> v.now, nan |-> x] :
                                 r \in IF Kind = "non" THEN {FALSE} ELSE BOOLEAN, o \in Outs, x \in IF Anomalies THEN BOOLEAN ELSE {FALSE}}
      [] v.mode = "fwd" /\ ~v.statsSeen /\ ~v.nan -> {[e |-> "st", st |-> StNow(v), mx |-> MxNow(v)]}
      [] v.mode = "fwd" -> {[e |-> "fwd", ids |-> Sorted(S), reset |-> r, t |-> v.now, nan |-> x] :
                                 S \in {T \in SUBSET (0..(Data(v).n - 1)) : Cardinality(T) = v.b}, r \in IF Kind = "non" THEN {TRUE} ELSE BOOLEAN, x \in IF Anomalies THEN BOOLEAN ELSE {FALSE}}
      [] v.mode = "learn" -> {[e |-> "learn", ids |-> v.last, t |-> v.now]}
      [] v.mode = "maybeLearn" -> {[e |-> "learn", ids |-> v.last, t |-> v.now]} \cup
                                  {[e |-> "fwd", ids |-> <<i>>, reset |-> r, t |-> v.now, nan |-> FALSE] : i \in 0..(Data(v).n - 1), r \in BOOLEAN}
                                  \cup {[e |-> "ev", id |-> 0, reset |-> TRUE, out |-> o, t |-> v.now, nan |-> FALSE] : o \in Outs}
      [] OTHER -> {}
Ret(v) == [e |-> "ret", threw |-> v.mode = "refused", training |-> FALSE, nan |-> v.nan, ntr |-> v.ntr,
           cls |-> IF v.out # <<>> THEN ArgMax(v.out) - 1 ELSE 0, same |-> TRUE, st |-> StNow(v), mx |-> MxNow(v)]

(* What each label does to the counters: written without looking at the machine's own counters. *)
Counters(ev, after) ==
    CASE ev.e = "call" -> [h EXCEPT !.calls = @ + 1, !.eps = 0, !.batches = 0, !.evals = 0, !.ntr0 = s.ntr, !.steps0 = s.steps, !.ended = FALSE]
      [] ev.e = "fwd" -> [h EXCEPT !.batches = @ + 1, !.anomaly = @ \/ ev.nan]
      [] ev.e = "ev" -> [h EXCEPT !.evals = IF after.statsSeen # s.statsSeen \/ after.latest # s.latest \/ (~after.statsSeen /\ after.mode # "eval") THEN @ + 1 ELSE @,
                                  !.anomaly = @ \/ ev.nan,
                                  !.best = IF after.mode \notin {"eval", "predict"} /\ s.job # "predict" /\ ~after.nan
                                           THEN Max(@, (1000000 * after.latest.well) \div after.latest.n) ELSE @]
      [] ev.e = "saved" -> [h EXCEPT !.saves = @ + 1]
      [] ev.e = "ret" -> [h EXCEPT !.ended = TRUE]
      [] OTHER -> h

Step(ev) == /\ Faults(s, ev) = {}
            /\ s' = Apply(s, ev)
            /\ h' = Counters(ev, s')
Next == \/ \E ev \in Labels(s) : Step(ev)
        \/ s.mode \in {"end", "cut", "refused"} /\ ~(s.mustSave /\ ~s.nan) /\ Step(Ret(s))
        \/ s.mode = "maybeLearn" /\ View(s, [e |-> "ret"]).mode \in {"end", "cut"} /\ Step(Ret(View(s, [e |-> "ret"])))
        \/ s.mode = "cut" /\ EvalAfter(s) /\ ~s.nan /\ \E o \in Outs : Step([e |-> "ev", id |-> 0, reset |-> TRUE, out |-> o, t |-> s.now, nan |-> FALSE])
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* C03 *)
PerEpoch == Data(s).n \div s.b
AnnouncedSchedule ==
    (h.ended /\ s.mode = "idle" /\ ~s.nan /\ h.batches > 0 /\ s.wait.k = "ep") =>
        /\ s.epochs = s.wait.v
        /\ h.batches = s.wait.v * PerEpoch
        /\ Kind # "ts" => s.ntr - h.ntr0 = h.batches
(* C04 *)
NeverPastCriterion == s.mode = "fwd" => ~Over(s.wait, Observation(s))
OverAgreesWithLeaves == s.mode # "idle" /\ s.job = "train" => Over(s.wait, Observation(s)) = FlatOver(s.wait, Observation(s))
(* C05 C06 *)
EpochUsesDataOnce == Kind # "ts" => Distinct(s.used) /\ SeqSet(s.used) \subseteq 0..(Data(s).n - 1)
SequencesWhole == Kind = "seq" => \A i \in 1..Len(s.used) : \/ s.used[i] \in Starts(Data(s).st, 0)
                                                          \/ (i > 1 /\ s.used[i] = s.used[Max(1, i-1)] + 1)
(* C07 *)
WindowsBeforeLearning == Kind = "ts" => \A x \in SeqSet(s.learnt) : x \in 0..(Data(s).n - 1)
(* C08 *)
RefusedChangesNothing == s.mode = "refused" => s.steps = h.steps0 /\ h.evals = 0 /\ h.batches = 0
(* C11 *)
BestIsTheMaximum == (s.statsSeen /\ ~s.nan /\ h.best >= 0) => s.best.acc = h.best
SavedOnlyWhenBetter == h.saves <= s.saves
(* C12 *)
NoResultOnlyAfterAnAnomaly == s.void => s.nan       \* and only then has an evaluation no result
NothingAfterAnAnomaly == [][s.nan => s'.steps = s.steps]_vars
Idle == s.mode = "idle"
Returns == (s.mode # "idle") ~> Idle
(* reachability, to be violated: every mode is visited *)
NoAnomaly == ~s.nan
===================================================================================
