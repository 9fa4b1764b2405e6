----------------------------------- MODULE MCTwins -----------------------------------
(* How an implementation that keeps the components of a network in memory cells copies,  *)
(* saves and loads it, against networks as values (Twins).  SHARED: components of which a *)
(* copy takes the cell instead of the contents; LOST: components forgotten by a file;     *)
(* RESET: components a copy starts afresh.  The model is correct iff all three are empty. *)
EXTENDS Twins
CONSTANTS Nets, Files, MaxOps, SHARED, LOST, RESET, Inputs
Comps == {"weights", "momentum", "optimizer", "memory", "statistics"}
VARIABLES at, heap, disk, v, vf, tab, next, ops
vars == <<at, heap, disk, v, vf, tab, next, ops>>
None == [p |-> -1, s |-> -1, h |-> -1]
Init == /\ at = [n \in Nets |-> <<>>] /\ heap = <<>> /\ disk = [f \in Files |-> <<>>]
        /\ v = [n \in Nets |-> None] /\ vf = [f \in Files |-> None] /\ tab = [x \in {} |-> 0] /\ next = 1 /\ ops = 0
Live(n) == at[n] # <<>>
Val(n, c) == heap[at[n][c]]
Cells == <<"weights", "momentum", "optimizer", "memory", "statistics">>
(* the network n gets new cells holding the values x *)
Place(n, x, keep) ==
    /\ heap' = heap \o [i \in 1..5 |-> x[Cells[i]]]
    /\ at' = [at EXCEPT ![n] = [c \in Comps |-> IF c \in DOMAIN keep THEN keep[c] ELSE Len(heap) + CHOOSE i \in 1..5 : Cells[i] = c]]
Write(n, w) == heap' = [k \in DOMAIN heap |-> IF \E c \in DOMAIN w : at[n][c] = k THEN w[CHOOSE c \in DOMAIN w : at[n][c] = k] ELSE heap[k]]
Count(n, op) == /\ v' = [v EXCEPT ![n] = After3(tab, next, IF op.k = "build" THEN [p |-> 0, s |-> 0, h |-> 0] ELSE v[n], IF op.k = "build" THEN [op EXCEPT !.k = "train"] ELSE op, TRUE, TRUE)]
                /\ tab' = Learned(tab, next, IF op.k = "build" THEN [p |-> 0, s |-> 0, h |-> 0] ELSE v[n], IF op.k = "build" THEN [op EXCEPT !.k = "train"] ELSE op, TRUE, TRUE)
                /\ next' = next + 3
Fresh == [c \in Comps |-> <<>>]
Build(n) == ~Live(n) /\ Place(n, Fresh, <<>>) /\ Count(n, [k |-> "build", x |-> "build", y |-> 0]) /\ UNCHANGED <<disk, vf>>
W(n) == Val(n, "weights")
Learn(n, x) == /\ Live(n)
    /\ LET g == <<W(n), Val(n, "memory"), Val(n, "optimizer"), Val(n, "momentum"), x>> IN
       Write(n, [c \in {"weights", "momentum", "memory"} |-> <<c, g>>])
    /\ Count(n, [k |-> "once", x |-> x, y |-> 0]) /\ UNCHANGED <<at, disk, vf>>
Predict(n, x) == /\ Live(n) /\ Write(n, [c \in {"memory"} |-> <<W(n), Val(n, "memory"), x>>])
    /\ Count(n, [k |-> "predict", x |-> x, y |-> 0]) /\ UNCHANGED <<at, disk, vf>>
Evaluate(n) == /\ Live(n)
    /\ Write(n, [c \in {"memory", "statistics"} |-> <<c, W(n), Val(n, "memory"), IF c = "statistics" THEN Val(n, c) ELSE <<>>>>])
    /\ Count(n, [k |-> "evaluate", x |-> 0, y |-> 0]) /\ UNCHANGED <<at, disk, vf>>
Tune(n) == /\ Live(n) /\ Write(n, [c \in {"optimizer"} |-> <<"tuned", Val(n, c)>>])
    /\ Count(n, [k |-> "setlr", x |-> 0, y |-> 0]) /\ UNCHANGED <<at, disk, vf>>
Copy(a, b) == /\ Live(a) /\ a # b
    /\ Place(b, [c \in Comps |-> IF c \in RESET THEN <<>> ELSE Val(a, c)], [c \in SHARED |-> at[a][c]])
    /\ v' = [v EXCEPT ![b] = v[a]] /\ UNCHANGED <<disk, vf, tab, next>>
Save(a, f) == /\ Live(a) /\ disk' = [disk EXCEPT ![f] = [c \in Comps |-> IF c \in LOST THEN <<>> ELSE Val(a, c)]]
    /\ vf' = [vf EXCEPT ![f] = v[a]] /\ UNCHANGED <<at, heap, v, tab, next>>
Load(f, b) == /\ disk[f] # <<>> /\ Place(b, disk[f], <<>>) /\ v' = [v EXCEPT ![b] = vf[f]] /\ UNCHANGED <<disk, vf, tab, next>>
Destroy(n) == /\ Live(n) /\ at' = [at EXCEPT ![n] = <<>>] /\ v' = [v EXCEPT ![n] = None] /\ UNCHANGED <<heap, disk, vf, tab, next>>
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E n \in Nets : Build(n) \/ Evaluate(n) \/ Tune(n) \/ Destroy(n) \/ \E x \in Inputs : Learn(n, x) \/ Predict(n, x)
           \/ \E a, b \in Nets : Copy(a, b)
           \/ \E a \in Nets, f \in Files : Save(a, f) \/ Load(f, a)
Spec == Init /\ [][Next]_vars
(* What the trace specification concludes from equal numbers is true of every implementation that copies values. *)
Values == \A a, b \in Nets : Live(a) /\ Live(b) =>
    /\ v[a].p = v[b].p => \A c \in Comps \ {"statistics"} : Val(a, c) = Val(b, c)
    /\ v[a].s = v[b].s => Val(a, "statistics") = Val(b, "statistics")
Twin == \A a, b \in Nets : Live(a) /\ Live(b) /\ v[a].h = v[b].h => v[a] = v[b]
(* a network never changes but by its own operations *)
Apart == [][\A n \in Nets : Live(n) /\ v'[n] = v[n] /\ at'[n] = at[n] => \A c \in Comps : heap'[at[n][c]] = heap[at[n][c]]]_vars
======================================================================================
