------------------------------- MODULE NormalizeTrace -------------------------------
(* Recorded normalizations of real data, against Normalize.                             *)
EXTENDS Normalize, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, bad, cov, cnt
Begin(ev) == [mode |-> "on", nat |-> ev.nat, q |-> <<>>, t |-> <<>>, pr |-> <<>>, times |-> 0]
NGuard(st, ev) ==
    CASE ev.e \in {"done", "data", "shuffle"} -> {}
      [] ev.e = "norm" ->
           (IF ev.threw THEN {"C09: a normalization is refused"} ELSE
            IF ~ev.same THEN {"C09: a normalization changes labels, order or shape"} ELSE
            UNION {{"C09: " \o x \o " (column " \o ToString(j - 1) \o ")" : x \in
                       Column(st.q[j], st.t[j], ev.qa[j], ev.ta[j], ev.mn, ev.mx, 3) \cup Ranks(st.pr[j], ev.pa[j], TRUE)} : j \in DOMAIN st.q})
NEffect(st, ev) == CASE ev.e = "data" -> [st EXCEPT !.q = ev.q, !.t = ev.t, !.pr = ev.pr]
                     [] ev.e = "norm" -> [st EXCEPT !.times = @ + 1]
                     [] OTHER -> st
NAfter(st) == {}
Sign(q) == <<Least(q) < 0, Greatest(q) > 0, Least(q) = Greatest(q), Len(q) = 1>>
NCover(st, ev) == IF ev.e = "norm" THEN {<<st.nat, st.times, Sign(st.q[j]), ev.mn < 0, ev.mx > 0, st.q[j][1] = Greatest(st.q[j])>> : j \in DOMAIN st.q} ELSE {<<ev.e>>}
NKnown(st, ev) == {}
R == INSTANCE Runner WITH Guard <- NGuard, Effect <- NEffect, After <- NAfter, Cover <- NCover, Known <- NKnown
Spec == R!Spec
Report == R!Report
=====================================================================================
