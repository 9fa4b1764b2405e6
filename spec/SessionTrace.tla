------------------------------- MODULE SessionTrace -------------------------------
(* Runs the Session machine along recorded traces.  What the two threads do to the     *)
(* shared flags is not observed: the machine is run as the set of states it may be in.  *)
EXTENDS Session, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, bad, cov, cnt
RECURSIVE Close(_)
Close(S) == LET T == S \cup UNION {Silent(x, FALSE) : x \in S} IN IF T = S THEN S ELSE Close(T)

NoObs == [n |-> 0, well |-> 0, abs |-> 0]
Begin(ev) == [mode |-> "on", S |-> Close({Start0}), op |-> "none", unfit |-> FALSE, cur |-> 0, per |-> ev.per, nt |-> ev.nt,
              xs |-> 0, begun |-> FALSE,      \* training steps over in the current training; has it begun
              cn |-> 0, cw |-> 0, last |-> NoObs, seen |-> {}, nan |-> FALSE, heldB |-> FALSE, wait |-> [k |-> "never"]]
Epochs(st) == IF st.begun THEN st.xs \div st.per ELSE -1
Ob(st, ms) == [ep |-> Epochs(st), n |-> st.last.n, well |-> st.last.well, abs |-> st.last.abs, ms |-> ms]

Reason(st, ev) ==
    CASE st.unfit \/ (ev.e = "nested" /\ ev.bad) -> "C08,C01,C02: data that do not fit (" \o st.op \o "): " \o ev.e \o (IF ev.e = "nested" THEN " " \o ev.op ELSE "")
           \o (IF ev.e \in {"ret", "nested"} /\ ~ev.threw THEN ": accepted" ELSE " out of place")
      [] ev.e = "b" /\ ev.t = 0 -> "C02: a second training runs in the caller"
      [] ev.e = "b" -> "C01,C02: a training step begins after the training was stopped, or beside another training"
      [] ev.e = "nested" -> "C02: during a blocking training, " \o ev.op \o " of another thread " \o (IF ~ev.v THEN "ends it, or hides it" ELSE IF ev.threw THEN "is refused" ELSE "is accepted")
      [] ev.e \in {"x", "ev", "texit", "held", "go", "tbegin"} -> "C01,C02: background training out of place"
      [] ev.e = "ret" -> "C02,C01: " \o ev.op \o (IF ev.threw THEN " is refused" ELSE " is accepted, or returns, too early")
      [] ev.e = "training" -> "C02,C01: the network reports " \o (IF ev.v THEN "that it is training" ELSE "that it is idle") \o " after " \o st.op
      [] OTHER -> "C01,C02: " \o ev.e

SGuard(st, ev) ==
    CASE ev.e = "done" -> {}
      [] ev.e = "blocked" ->
            IF st.op # "wait" THEN {}
            ELSE IF st.nan THEN {"C12!: waiting for a training that met a non-finite output does not return"}
            ELSE IF st.heldB /\ Over(st.wait, Ob(st, ev.ms - 1000)) THEN {"C04!: a wait goes on although its criterion holds"} ELSE {}
      [] OTHER ->
            (IF UNION {React(x, ev) : x \in st.S} = {} THEN {Reason(st, ev)} ELSE {})
            \cup (IF ev.e = "nested" /\ ev.made THEN {"C02: a refused save writes a file"} ELSE {})
            \cup (IF ev.e = "ret" /\ ev.op = "save" /\ ev.made = ev.threw THEN {"C02: a refused save writes a file, or an accepted one does not"} ELSE {})
            \cup (IF ev.e = "ret" /\ ev.op = "wait" /\ ~st.nan /\ ~\E o \in st.seen \cup {Ob(st, 0)} : Over(st.wait, [o EXCEPT !.ms = ev.ms])
                  THEN {"C04: a wait returns before its criterion holds"} ELSE {})

SEffect(st, ev) ==
    IF ev.e \in {"done", "blocked"} THEN st ELSE
    LET S2 == Close(UNION {React(x, ev) : x \in st.S})
        s1 == [st EXCEPT !.S = S2]
        s2 == CASE ev.e = "call" -> [s1 EXCEPT !.op = ev.op, !.unfit = ev.bad, !.wait = ev.wait, !.seen = {Ob(st, 0)}]
                [] ev.e = "tbegin" -> [s1 EXCEPT !.cur = ev.t, !.xs = 0, !.begun = TRUE, !.cn = 0, !.cw = 0]
                [] ev.e = "b" -> [s1 EXCEPT !.nan = @ \/ ev.nan, !.heldB = FALSE]
                [] ev.e = "x" -> [s1 EXCEPT !.xs = @ + 1]
                [] ev.e = "ev" ->
                      LET n == st.cn + 1 w == st.cw + (IF ev.ok THEN 1 ELSE 0) IN
                      IF n = st.nt THEN [s1 EXCEPT !.nan = @ \/ ev.nan, !.cn = 0, !.cw = 0,
                                                   !.last = IF ev.nan \/ st.nan THEN @ ELSE [n |-> n, well |-> w, abs |-> 8 * (n - w)]]
                      ELSE [s1 EXCEPT !.nan = @ \/ ev.nan, !.cn = n, !.cw = w]
                [] ev.e = "held" -> [s1 EXCEPT !.heldB = ev.at = "b"]
                [] ev.e = "go" -> [s1 EXCEPT !.heldB = FALSE]
                [] OTHER -> s1
    IN IF s2.op = "wait" THEN [s2 EXCEPT !.seen = @ \cup {Ob(s2, 0)}] ELSE s2
SAfter(st) == {}
SCover(st, ev) == IF ev.e \in {"done", "blocked"} THEN {<<ev.e>>}
                  ELSE IF ev.e = "ret" THEN {<<ev.e, ev.op, ev.threw>>} ELSE IF ev.e = "nested" THEN {<<ev.e, ev.op, ev.bad>>}
                  ELSE IF ev.e = "call" THEN {<<ev.e, ev.op, ev.why>>} ELSE IF ev.e = "joining" THEN {<<ev.e, st.op, x.tp, x.th, x.hold>> : x \in {y \in st.S : y.pc = "join"}} ELSE {<<ev.e>>}
SKnown(st, ev) == {}
R == INSTANCE Runner WITH Guard <- SGuard, Effect <- SEffect, After <- SAfter, Cover <- SCover, Known <- SKnown
Spec == R!Spec
Report == R!Report
====================================================================================
