-------------------------------- MODULE DataTrace --------------------------------
(* Recorded constructions of real data sets and what they hand out, against DataSet    *)
(* (C28).                                                                             *)
EXTENDS DataSet, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, bad, cov, cnt
NTr(st) == Len(st.d.tr.ins)
NTe(st) == Len(st.d.te.ins)
Begin(ev) == [mode |-> "on", d |-> ev.d, shuffled |-> FALSE, knob |-> [precision |-> 1600, separator |-> 8000]]    \* 1/16000; the defaults 0.1 and 0.5
Id(n) == [i \in 1..n |-> i]
DGuard(st, ev) ==
    CASE ev.e = "build" ->
           IF ev.ok # WellFormed(st.d) THEN {"C28: " \o (IF ev.ok THEN "ill-formed data were accepted" ELSE "well-formed data were refused") \o " (" \o st.d.nature \o ", " \o st.d.problem \o ")"}
           ELSE (IF ev.untouched THEN {} ELSE {"C28: building the data changed the given values"})
                \cup (IF ~ev.ok \/ (ev.nin = st.d.tr.ins[1] /\ ev.nlab = st.d.tr.labs[1] /\ ev.ntr = NTr(st) /\ ev.nte = NTe(st)) THEN {} ELSE {"C28: the announced sizes are not those of the data"})
      [] ev.e = "see" ->
           (IF IF st.shuffled THEN ShuffleOK(st.d, ev.o, ev.first) /\ (\A i \in 1..Len(ev.o) : ev.o[i] > 0) ELSE ev.o = Id(NTr(st)) THEN {} ELSE {"C28,C05,C06: the training data are handed out in the order " \o ToString(ev.o)})
           \cup (IF ev.lab = ev.o THEN {} ELSE {"C28,C05: training data are not handed out with their own labels"})
           \cup (IF st.d.problem # "classification" \/ ev.cls = [i \in 1..Len(ev.o) |-> st.d.tr.cls[ev.o[i]]] THEN {} ELSE {"C28: the class of a training datum is not the position of its 1"})
           \cup (IF ev.to = Id(NTe(st)) /\ ev.tlab = ev.to THEN {} ELSE {"C28: the test data are not handed out as given"})
           \cup (IF st.d.problem # "classification" \/ ev.tcls = [i \in 1..NTe(st) |-> st.d.te.cls[i]] THEN {} ELSE {"C28: the class of a test datum is not the position of its 1"})
           \cup (IF st.shuffled \/ ev.first = TrainFirst(st.d, NTr(st)) THEN {} ELSE {"C28,C06,C07: the beginnings of the training sequences are marked wrong"})
           \cup (IF st.shuffled \/ \A i \in 1..Len(ev.learn) : ev.learn[i] THEN {} ELSE {"C28: not every datum is learned in the given order"})
           \cup (IF ev.tfirst = TestFirst(st.d, NTe(st)) THEN {} ELSE {"C28,C06,C07: the beginnings of the test sequences are marked wrong"})
           \cup (IF ev.counts = TestCounts(st.d, NTe(st)) THEN {} ELSE {"C28,C10: the test data that count are marked wrong"})
           \cup (IF ev.same THEN {} ELSE {"C28: the accessors disagree"})
      [] ev.e = "knob" ->
           IF ev.ok # Keeps(st.d.problem, ev.what) THEN {"C28: the " \o ev.what \o " is " \o (IF ev.ok THEN "accepted" ELSE "refused") \o " for " \o st.d.problem}
           ELSE IF ev.ok /\ ~ev.set /\ ev.got \notin {st.knob[ev.what] - 1, st.knob[ev.what], st.knob[ev.what] + 1} THEN {"C28: the " \o ev.what \o " is not the one set"} ELSE {}
      [] ev.e = "valid" -> IF ev.v = 0 THEN {} ELSE {"C28: data built are said to be invalid"}
      [] OTHER -> {}
DEffect(st, ev) ==
    CASE ev.e = "shuffle" -> [st EXCEPT !.shuffled = TRUE]
      [] ev.e = "unshuffle" -> [st EXCEPT !.shuffled = FALSE]
      [] ev.e = "knob" /\ ev.set /\ ev.ok -> [st EXCEPT !.knob[ev.what] = ev.v]
      [] OTHER -> st
DAfter(st) == {}
DCover(st, ev) == CASE ev.e = "build" -> {<<"build", st.d.problem, st.d.nature, st.d.dim, st.d.one, ev.ok>>} [] ev.e = "see" -> {<<"see", st.d.problem, st.d.nature, st.d.one, st.shuffled>>} [] ev.e = "knob" -> {<<st.d.problem, ev.what, ev.set>>} [] OTHER -> {}
DKnown(st, ev) == {}
R == INSTANCE Runner WITH Guard <- DGuard, Effect <- DEffect, After <- DAfter, Cover <- DCover, Known <- DKnown
Spec == R!Spec
Report == R!Report
==================================================================================
