-------------------------------- MODULE FileTrace --------------------------------
(* Recorded saves, loads and deaths of real networks, against File (C27).             *)
EXTENDS File, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, bad, cov, cnt
Begin(ev) == [mode |-> "on", arch |-> ev.arch, may |-> FileInit, v |-> 0]
FGuard(st, ev) ==
    CASE ev.e = "save" ->
           (IF ev.outcome = "ok" /\ ~ev.fits THEN {"C27: a save (" \o ev.how \o ") that could not be written completely was not reported"} ELSE {})
           \cup (IF ev.outcome = "refused" /\ ~MayRefuse(~ev.fits) THEN {"C27: a save (" \o ev.how \o ", " \o ev.mode \o ") failed for no reason"} ELSE {})
           \cup (IF ev.outcome = "crash" THEN {"C27: a save (" \o ev.how \o ", " \o ev.mode \o ") ended the process"} ELSE {})
      [] ev.e = "load" ->
           (IF LoadOK(st.may, ev.v) THEN {} ELSE {"C27: " \o ev.when \o " the file gives " \o (IF ev.v = -1 THEN "another network" ELSE IF ev.v = 0 THEN "nothing" ELSE "version " \o ToString(ev.v)) \o " instead of one of " \o ToString(st.may)})
           \cup (IF ev.idle THEN {} ELSE {"C27: the network is not idle " \o ev.when})
      [] ev.e = "cut" -> IF CutOK(st.v, ev.left, ev.v) THEN {} ELSE {"C27: a file without its last " \o ToString(ev.left) \o " characters was loaded as " \o (IF ev.v = -1 THEN "another network" ELSE "version " \o ToString(ev.v)) \o " (0: refused)"}
      [] ev.e = "junk" -> IF JunkOK(ev.v) THEN {} ELSE {"C27: a file that is no network was loaded"}
      [] OTHER -> {}
FEffect(st, ev) ==
    CASE ev.e = "save" -> [st EXCEPT !.v = ev.v, !.may = CASE ev.outcome = "ok" -> Saved(st.may, ev.v) [] ev.outcome = "refused" -> Refused(st.may, ev.v) [] OTHER -> Died(st.may, ev.v)]
      [] ev.e = "load" -> [st EXCEPT !.may = {ev.v}]
      [] OTHER -> st
FAfter(st) == {}
FCover(st, ev) == CASE ev.e = "save" -> {<<st.arch, "save", ev.how, ev.mode, ev.outcome, ev.fits>>} [] ev.e = "load" -> {<<st.arch, "load", Cardinality(st.may), ev.v = 0>>} [] ev.e = "cut" -> {<<st.arch, "cut", IF ev.left > 50 THEN 50 ELSE ev.left>>} [] OTHER -> {}
FKnown(st, ev) == {}
R == INSTANCE Runner WITH Guard <- FGuard, Effect <- FEffect, After <- FAfter, Cover <- FCover, Known <- FKnown
Spec == R!Spec
Report == R!Report
====================================================================================
