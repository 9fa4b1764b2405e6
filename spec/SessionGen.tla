--------------------------------- MODULE SessionGen ---------------------------------
(* Schedules for the implementation, generated from the Session machine: every          *)
(* sequence of calls by the user and of advances of a training thread that is held at   *)
(* its interactions (its beginning, the begin and end of a training step, an            *)
(* evaluation), up to length L.  A call runs until it returns or blocks.                *)
EXTENDS Session, Json
CONSTANTS L, MaxOps
VARIABLES x, pos, hist, ops      \* pos: training steps over in the current epoch (of two)
vars == <<x, pos, hist, ops>>
RECURSIVE RunUser(_)
RunUser(y) ==
    IF y.pc = "blocking" THEN RunUser([y EXCEPT !.pc = "ret", !.idle = TRUE, !.want = FALSE])
    ELSE IF y.pc = "ret" THEN RunUser([y EXCEPT !.pc = "report"])
    ELSE IF y.pc = "report" THEN [y EXCEPT !.pc = "user", !.gone = y.op = "destroy"]
    ELSE IF SilentUser(y, FALSE) = {} THEN y ELSE RunUser(CHOOSE z \in SilentUser(y, FALSE) : TRUE)
Check(y) == IF y.want THEN [y EXCEPT !.th = "dead", !.tp = "exit", !.idle = TRUE, !.want = FALSE] ELSE [y EXCEPT !.tp = "step"]
Advance(y, p, f) ==
    CASE y.th = "created" -> IF f > 0 THEN [y EXCEPT !.th = "run", !.tp = "eval"] ELSE Check([y EXCEPT !.th = "run"])
      [] y.tp = "eval" -> [y EXCEPT !.tp = "eval2"]     \* two testing data
      [] y.tp = "eval2" -> Check(y)
      [] y.tp = "step" -> [y EXCEPT !.tp = "after"]
      [] y.tp = "after" -> IF p = 2 /\ f > 0 THEN [y EXCEPT !.tp = "eval"] ELSE Check(y)
Init == x \in {[Start0 EXCEPT !.f = f] : f \in {0, 1}} /\ pos = 0 /\ hist = <<>> /\ ops = 0
Calls == {<<"start", FALSE>>, <<"start", TRUE>>, <<"stop", FALSE>>, <<"train", FALSE>>, <<"train", TRUE>>, <<"eval", TRUE>>, <<"save", FALSE>>, <<"copy", FALSE>>, <<"destroy", FALSE>>}
Call == /\ x.pc = "user" /\ ~x.gone /\ ops < MaxOps
        /\ \E c \in Calls :
             /\ (ops = 0 => c = <<"start", FALSE>>)
             /\ x' = RunUser([x EXCEPT !.pc = "call", !.op = c[1], !.arg = c[2], !.res = "ok"])
             /\ pos' = IF x'.th = "created" THEN 0 ELSE pos
             /\ hist' = Append(hist, IF c[2] THEN c[1] \o "bad" ELSE c[1]) /\ ops' = ops + 1
Adv == /\ x.th \in {"created", "run"}
       /\ LET y == Advance(x, pos, x.f) IN
          /\ x' = IF y.pc = "user" THEN y ELSE RunUser(y)
          /\ pos' = IF x.tp = "step" THEN (pos % 2) + 1 ELSE IF x'.th = "created" THEN 0 ELSE pos
       /\ hist' = Append(hist, "adv") /\ UNCHANGED ops
Next == Len(hist) < L /\ (Call \/ Adv)
Spec == Init /\ [][Next]_vars
(* A schedule is complete when nothing more is added to it. *)
Complete == Len(hist) = L \/ (x.gone /\ x.pc = "user")
Emit == ~Complete \/ PrintT("SCHED " \o ToJson([f |-> x.f, s |-> hist]))
====================================================================================
