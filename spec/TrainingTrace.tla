------------------------------ MODULE TrainingTrace ------------------------------
EXTENDS Training, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, bad, cov, cnt
TCover(st, ev) == IF ev.e \in {"call"} THEN {<<ev.e, ev.op>>} ELSE {<<ev.e, View2(st, ev).mode, Data(st).nat, Data(st).prob>>}
TKnown(st, ev) == {}

(* Which test data were scored is seen in the statistics only: when they are not those of the data that   *)
(* count, but exactly those of other test data, these were scored instead (C06, C07).                     *)
TBegin(ev) == [shown |-> <<>>] @@ Init0(ev)
TEffect(st, ev) == LET s2 == Apply(st, ev) IN
    IF ev.e = "ev" /\ View2(st, ev).mode = "eval" /\ ~ev.nan
    THEN [s2 EXCEPT !.shown = Append(IF ev.id = 0 THEN <<>> ELSE @, [id |-> ev.id, out |-> ev.out])] ELSE s2
RECURSIVE TallyOf(_, _, _, _)
TallyOf(d, shown, I, t) == IF I = {} THEN t ELSE
    LET i == CHOOSE x \in I : TRUE IN TallyOf(d, shown, I \ {i}, Score(t, d.prob, shown[i].out, d.des[shown[i].id + 1], d.lim))
OthersScored(st, ev) ==
    LET d == Data(st) D == DOMAIN st.shown S == {i \in D : Scored(d, st.shown[i].id)}
        some == IF Cardinality(D) <= 9 THEN SUBSET D ELSE {D, D \ S} \cup {D \ {i} : i \in D} \cup {S \ {i} : i \in S} \cup {S \cup {i} : i \in D}
    IN \E I \in some \ {{}, S} : StatFaults(TallyOf(d, st.shown, I, EmptyTally(d.nout)), ev.st) = {}
TGuard(st0, ev) == Faults(st0, ev) \cup
    LET st == View2(st0, ev) d == Data(st) IN
    IF ev.e \notin {"st", "ret"} THEN {} ELSE
    IF st.mode = "refused" \/ st.nan \/ st.statsSeen \/ d.nat = "non" THEN {}
    ELSE IF StatFaults(st.latest, ev.st) # {} /\ (\A i \in DOMAIN st.shown : st.shown[i].id + 1 \in DOMAIN d.des) /\ OthersScored(st, ev)
         THEN {OrderTag(d) \o "other test data are scored than " \o (IF d.nat = "seq" THEN "the last one of each sequence" ELSE "all of them")} ELSE {}
R == INSTANCE Runner WITH Begin <- TBegin, Guard <- TGuard, Effect <- TEffect, After <- CoverFaults, Cover <- TCover, Known <- TKnown
Spec == R!Spec
Report == R!Report
=================================================================================
