-------------------------------- MODULE WaitTrace --------------------------------
(* Criteria built by the implementation, and what it makes of observations.         *)
EXTENDS Wait, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, bad, cov, cnt
Begin(ev) == [mode |-> "on"]
Ob(q) == [ep |-> q[1], n |-> q[2], well |-> q[3], abs |-> q[4], ms |-> q[5]]
WGuard(st, ev) ==
    IF ev.e = "done" THEN {} ELSE
    IF ev.refused THEN (IF Mixed(ev.w) THEN {} ELSE {"C04: a combination without mixing is refused"})
    ELSE (IF Mixed(ev.w) THEN {"C04: mixing conjunctions and disjunctions is accepted"} ELSE
          IF ~ev.clean THEN {"C04: an operand on the right is modified"} ELSE
          {"C04: " \o (IF ev.res[i] THEN "ends before" ELSE "does not end when") \o " its criterion holds: " \o ToString(ev.obs[i]) : i \in {j \in DOMAIN ev.obs : Over(ev.w, Ob(ev.obs[j])) # ev.res[j]}})
WEffect(st, ev) == st
WAfter(st) == {}
WCover(st, ev) == IF ev.e = "done" THEN {} ELSE {<<ev.w.k, ev.refused, ev.res>>}
WKnown(st, ev) == {}
R == INSTANCE Runner WITH Guard <- WGuard, Effect <- WEffect, After <- WAfter, Cover <- WCover, Known <- WKnown
Spec == R!Spec
Report == R!Report
=================================================================================
