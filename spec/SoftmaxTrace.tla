-------------------------------- MODULE SoftmaxTrace --------------------------------
(* Recorded results of real softmax layers, against Softmax.                            *)
EXTENDS Softmax, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, bad, cov, cnt
Begin(ev) == [mode |-> "on", kind |-> ev.kind]
Band(ev) == IF \A i \in DOMAIN ev.d : ev.d[i] = 0 THEN "equal" ELSE IF \E i \in DOMAIN ev.d : ev.d[i] < -Low THEN "far" ELSE "near"
MGuard(st, ev) == CASE ev.e = "done" -> {}
                    [] ev.e = "softmax" -> {"C24: " \o x \o " (" \o st.kind \o ", " \o ev.how \o ", raw outputs " \o ev.raw \o ")" : x \in Faults(ev)}
MEffect(st, ev) == st
MAfter(st) == {}
MCover(st, ev) == IF ev.e = "softmax" THEN {<<st.kind, ev.how, Band(ev), Len(ev.rr) = 1>>} ELSE {}
MKnown(st, ev) == {}
R == INSTANCE Runner WITH Guard <- MGuard, Effect <- MEffect, After <- MAfter, Cover <- MCover, Known <- MKnown
Spec == R!Spec
Report == R!Report
=====================================================================================
