--------------------------------- MODULE Runner ---------------------------------
(* Runs a machine along recorded traces.  Scenarios are concatenated; each starts    *)
(* with a "scenario" line, from whose fields Begin makes the initial state.  A line  *)
(* the machine does not allow (Guard gives reasons) ends its scenario and is         *)
(* reported; the other scenarios go on.  Known names the deviations from the         *)
(* properties that a step needed: findings recorded in known_findings.txt.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Trace, Begin(_), Guard(_, _), Effect(_, _), After(_), Cover(_, _), Known(_, _)
VARIABLES l, s, bad, cov, cnt
vars == <<l, s, bad, cov, cnt>>
Dead == [mode |-> "dead"]
Init == l = 1 /\ s = Dead /\ bad = {} /\ cov = {} /\ cnt = [scen |-> 0, acts |-> 0, known |-> {}]
Next ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l] IN
       /\ l' = l + 1
       /\ IF ev.e = "scenario"
          THEN /\ s' = Begin(ev) /\ cnt' = [cnt EXCEPT !.scen = ev.n] /\ UNCHANGED <<bad, cov>>
          ELSE IF s.mode = "dead" THEN UNCHANGED <<s, bad, cov, cnt>>
          ELSE LET f == IF ev.e \in {"crash", "hang", "uncaught"} THEN {"*: " \o ToString(ev)} ELSE Guard(s, ev) IN
               IF f # {} THEN /\ bad' = bad \cup {[line |-> l, scen |-> cnt.scen, why |-> x] : x \in f}
                              /\ s' = Dead /\ UNCHANGED <<cov, cnt>>
               ELSE LET s2 == Effect(s, ev) g == After(s2) k == Known(s, ev) IN
                    /\ bad' = bad \cup {[line |-> l, scen |-> cnt.scen, why |-> x] : x \in g}
                    /\ s' = IF g = {} THEN s2 ELSE Dead
                    /\ cov' = cov \cup Cover(s, ev)
                    /\ cnt' = [cnt EXCEPT !.acts = @ + 1, !.known = @ \cup k]
Spec == Init /\ [][Next]_vars
Report == l <= Len(Trace) \/ PrintT("RESULT " \o ToJson([lines |-> Len(Trace), acts |-> cnt.acts, known |-> cnt.known, bad |-> bad, cov |-> cov]))
=================================================================================
