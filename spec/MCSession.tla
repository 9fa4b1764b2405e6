--------------------------------- MODULE MCSession ---------------------------------
(* Every interleaving of a user thread making up to MaxCalls calls with the training  *)
(* threads it starts.                                                                 *)
EXTENDS Session
CONSTANTS MaxCalls, Legacy, Ops
VARIABLES x, calls, late, rep     \* late: training steps begun since a stop was requested; rep: what the last call reported
vars == <<x, calls, late, rep>>
Init == x = Start0 /\ calls = 0 /\ late = 0 /\ rep = [op |-> "none", training |-> FALSE, threw |-> FALSE]
Stopping == x.pc \in {"join", "lower", "values", "create"}
Call == /\ calls < MaxCalls
        /\ \E op \in Ops, bad \in BOOLEAN :
             /\ (bad => op \in {"start", "train", "eval"}) /\ (op = "eval" => bad)
             /\ x' \in React(x, [e |-> "call", op |-> op, bad |-> bad])
             /\ calls' = calls + 1 /\ late' = 0 /\ UNCHANGED rep
UserSilent == x' \in SilentUser(x, Legacy) /\ UNCHANGED <<calls, late, rep>>
UserRet == \/ \E r \in BOOLEAN : x' \in React(x, [e |-> "ret", threw |-> r]) /\ rep' = [rep EXCEPT !.threw = r] /\ UNCHANGED <<calls, late>>
           \/ \E v \in BOOLEAN : x' \in React(x, [e |-> "training", v |-> v]) /\ rep' = [rep EXCEPT !.op = x.op, !.training = v] /\ UNCHANGED <<calls, late>>
UserTrains == \/ x' \in React(x, [e |-> "b", t |-> 0, nan |-> FALSE]) /\ UNCHANGED <<calls, late, rep>>
              \/ \E op \in Ops \ {"destroy"}, threw, bad \in BOOLEAN : (bad => op \in {"start", "train", "eval"}) /\ (op = "eval" => bad) /\ x' \in React(x, [e |-> "nested", op |-> op, bad |-> bad, threw |-> threw, v |-> TRUE]) /\ UNCHANGED <<calls, late, rep>>
              \/ x' \in React(x, [e |-> "x", t |-> 0]) /\ UNCHANGED <<calls, late, rep>>
Trainer == \/ x' \in SilentTrainer(x, Legacy) /\ UNCHANGED <<calls, late, rep>>
           \/ \E f \in {0, 1} : x' \in React(x, [e |-> "tbegin", t |-> x.tid, f |-> f]) /\ UNCHANGED <<calls, late, rep>>
           \/ \E nan \in BOOLEAN : x' \in React(x, [e |-> "b", t |-> x.tid, nan |-> nan]) /\ x.tid > 0 /\ late' = (IF Stopping /\ late < 2 THEN late + 1 ELSE late) /\ UNCHANGED <<calls, rep>>
           \/ x.tid > 0 /\ x' \in React(x, [e |-> "x", t |-> x.tid]) /\ UNCHANGED <<calls, late, rep>>
           \/ \E nan \in BOOLEAN : x' \in React(x, [e |-> "ev", t |-> x.tid, nan |-> nan]) /\ x.tid > 0 /\ x' # x /\ UNCHANGED <<calls, late, rep>>
           \/ x' \in React(x, [e |-> "texit", t |-> x.tid]) /\ UNCHANGED <<calls, late, rep>>
Next == Call \/ UserSilent \/ UserRet \/ UserTrains \/ Trainer
Spec == Init /\ [][Next]_vars /\ WF_vars(UserSilent) /\ WF_vars(UserRet) /\ WF_vars(Trainer)

(* C02 *)
OneTraining == x.mp # "none" => x.th = "none"
RefusedWhileTraining == (x.pc = "ret" /\ x.op \in {"train", "save", "copy"} /\ x.res = "ok") => x.idle \/ x.th = "none"
ReportsTraining == (rep.op = "start" /\ ~rep.threw /\ x.pc = "user") => (rep.training \/ x.nan)
(* C01 *)
StopIsFinal == (x.pc = "report" /\ x.op \in {"stop", "destroy"}) => (x.th = "none" /\ x.idle /\ ~x.want)
AtMostTheStepInFlight == late <= 1
Returns == (x.pc = "call" /\ x.op \in {"stop", "start", "destroy"}) ~> (x.pc = "user")
IdleAcceptsAgain == (x.pc = "ret" /\ ~x.arg /\ x.op \in {"train", "save", "copy"} /\ x.th = "none") => x.res = "ok"
(* C08: data that do not fit: the call does nothing but refuse *)
UnfitIsOnlyRefused == (x.arg /\ x.pc # "user") => (x.pc \in {"call", "ret", "report"} /\ (x.pc # "call" => x.res = "threw"))
====================================================================================
