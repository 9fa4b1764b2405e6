---------------------------------- MODULE Session ----------------------------------
(* One network, its user thread and its background training thread (C01 C02).         *)
(* One action per access to what the two threads share: the flags `want` (asked to     *)
(* stop) and `idle`, and the thread itself.  A call of the public interface is the     *)
(* sequence of its silent steps between a call and a return; the training thread       *)
(* alternates silent checks of the flags with visible training steps and evaluations.  *)
(* Silent(x): the successors of x by one silent step.                                  *)
(* React(x, ev): the successors of x by the visible interaction ev (empty: refused).   *)
(* Legacy = TRUE is the design before the repairs: the training thread sets the flags  *)
(* when it begins to run, instead of the caller before it creates the thread.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Wait

Start0 == [pc |-> "user",       \* user thread: "user" (outside of any call) or the stage of the call
           op |-> "none", arg |-> FALSE, res |-> "ok",
           idle |-> TRUE, want |-> FALSE,
           th |-> "none",       \* "none" | "created" | "run" | "dead" (has run to its end, not joined)
           tid |-> 0,           \* number of the latest training thread
           tp |-> "none",       \* training thread: "init" "chk" "ready" "step" "eval" "fin" "exit"
           mp |-> "none",       \* the same, for a training in the user thread
           nan |-> FALSE, f |-> 0, gone |-> FALSE,
           hold |-> FALSE]      \* the training thread is held by the test harness

(* ---- silent steps of the user thread ---- *)
(* The stop sequence: raise the flag, join the thread if there is one, lower the flag if idle. *)
Raise(x, next) == {[x EXCEPT !.want = TRUE, !.pc = next]}
Join(x, next) == IF x.th = "none" THEN {[x EXCEPT !.pc = next]}
                 ELSE IF x.th = "dead" THEN {[x EXCEPT !.th = "none", !.tp = "none", !.pc = next]} ELSE {}
Lower(x, next) == {[x EXCEPT !.want = IF x.idle THEN FALSE ELSE @, !.pc = next]}
Values(x, next) == {[x EXCEPT !.want = FALSE, !.idle = FALSE, !.pc = next]}

SilentUser(x, Legacy) ==
    CASE x.pc = "call" ->
            CASE x.op = "start" -> IF x.arg THEN {[x EXCEPT !.pc = "ret", !.res = "threw"]} ELSE Raise(x, "join")
              [] x.op \in {"stop", "destroy"} -> Raise(x, "join")
              [] x.op = "train" -> IF x.arg \/ ~x.idle THEN {[x EXCEPT !.pc = "ret", !.res = "threw"]} ELSE Raise(x, "join")
              [] x.op \in {"save", "copy"} -> {[x EXCEPT !.pc = "ret", !.res = IF x.idle THEN "ok" ELSE "threw"]}
              [] x.op = "eval" -> {[x EXCEPT !.pc = "ret", !.res = IF x.arg THEN "threw" ELSE "ok"]}
              [] OTHER -> {[x EXCEPT !.pc = "ret"]}
      [] x.pc = "join" -> Join(x, "lower")
      [] x.pc = "lower" -> Lower(x, IF x.op \in {"start", "train"} THEN "values" ELSE "ret")
      [] x.pc = "values" -> IF x.op = "start" /\ Legacy THEN {[x EXCEPT !.pc = "create"]}
                            ELSE Values(x, IF x.op = "start" THEN "create" ELSE "blocking")
      [] x.pc = "create" -> {[x EXCEPT !.th = "created", !.tid = @ + 1, !.tp = "init", !.pc = "ret"]}
      [] x.pc = "blocking" -> (IF x.mp = "none" THEN {[x EXCEPT !.mp = "open"]} ELSE {})
                              \cup (IF x.mp = "open" THEN {[x EXCEPT !.mp = "none", !.idle = TRUE, !.want = FALSE, !.pc = "ret"]} ELSE {})
      [] OTHER -> {}

(* ---- silent steps of the training thread ---- *)
SilentTrainer(x, Legacy) ==
    IF x.th # "run" \/ x.hold THEN {} ELSE
    CASE x.tp = "init" -> {[x EXCEPT !.tp = IF x.f > 0 THEN "eval" ELSE "chk",
                                     !.want = IF Legacy THEN FALSE ELSE @, !.idle = IF Legacy THEN FALSE ELSE @]}
      [] x.tp = "chk" -> IF x.want \/ x.nan THEN {[x EXCEPT !.tp = "fin"]} ELSE {[x EXCEPT !.tp = "ready"]}
      [] x.tp = "eval" -> {[x EXCEPT !.tp = "chk"]}
                          \cup (IF x.nan THEN {[x EXCEPT !.idle = TRUE, !.want = FALSE]} ELSE {})   \* reported early
      [] x.tp = "after" -> {[x EXCEPT !.tp = "chk"]} \cup (IF x.f > 0 THEN {[x EXCEPT !.tp = "eval"]} ELSE {})
      [] x.tp = "fin" -> {[x EXCEPT !.tp = "exit", !.idle = TRUE, !.want = FALSE]}
      [] OTHER -> {}
Silent(x, Legacy) == SilentUser(x, Legacy) \cup SilentTrainer(x, Legacy)

(* ---- visible interactions ---- *)
(* "step" is a training step in flight: begun (b), not yet over (x). *)
React(x, ev) ==
    CASE ev.e = "call" -> IF x.pc = "user" /\ ~x.gone THEN {[x EXCEPT !.pc = "call", !.op = ev.op, !.arg = ev.bad, !.res = "ok"]} ELSE {}
      [] ev.e = "joining" -> IF x.pc = "join" THEN {x} ELSE {}
      [] ev.e = "ret" -> IF x.pc = "ret" /\ (x.res = "threw") = ev.threw THEN {[x EXCEPT !.pc = "report"]} ELSE {}
      [] ev.e = "training" -> IF x.pc = "report" /\ (x.op = "destroy" \/ ev.v = ~x.idle)
                              THEN {[x EXCEPT !.pc = "user", !.gone = x.op = "destroy"]} ELSE {}
      [] ev.e = "tbegin" -> IF x.th = "created" /\ ev.t = x.tid THEN {[x EXCEPT !.th = "run", !.f = ev.f]} ELSE {}
      [] ev.e = "nested" -> \* a call of another thread of the user, in the middle of a step of a blocking training
             \* (of data that do not fit, nothing happens but the refusal)
             IF x.mp = "step" /\ ev.v /\ ev.threw = (ev.op # "stop") THEN {[x EXCEPT !.want = @ \/ (ev.op \in {"start", "stop"} /\ ~ev.bad)]} ELSE {}
      [] ev.e = "b" -> IF ev.t = 0 THEN (IF x.mp = "open" /\ ~x.want THEN {[x EXCEPT !.mp = "step"]} ELSE {})
                       ELSE IF x.th = "run" /\ ev.t = x.tid /\ x.tp = "ready" THEN {[x EXCEPT !.tp = "step", !.nan = @ \/ ev.nan]} ELSE {}
      [] ev.e = "x" -> IF ev.t = 0 THEN (IF x.mp = "step" THEN {[x EXCEPT !.mp = "open"]} ELSE {})
                       ELSE IF x.th = "run" /\ ev.t = x.tid /\ x.tp = "step" THEN {[x EXCEPT !.tp = "after"]} ELSE {}
      [] ev.e = "ev" -> IF ev.t = 0 THEN (IF x.mp = "open" THEN {x} ELSE {})
                        ELSE IF x.th = "run" /\ ev.t = x.tid /\ x.tp = "eval" THEN {[x EXCEPT !.nan = @ \/ ev.nan]} ELSE {}
      [] ev.e = "texit" -> IF x.th = "run" /\ ev.t = x.tid /\ x.tp = "exit" THEN {[x EXCEPT !.th = "dead"]} ELSE {}
      [] ev.e = "held" -> IF x.th \in {"created", "run"} /\ ev.t = x.tid THEN {[x EXCEPT !.hold = TRUE]} ELSE {}
      [] ev.e = "go" -> IF ev.t = x.tid THEN {[x EXCEPT !.hold = FALSE]} ELSE {}
      [] OTHER -> {}
====================================================================================
