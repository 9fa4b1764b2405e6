-------------------------------- MODULE WaitModel --------------------------------
(* The design behind C04: folding a criterion into a record of four thresholds and   *)
(* an operator, in any order and any shape, keeps its meaning: TLC enumerates every  *)
(* expression up to a size and every observation.  Legacy = TRUE folds as the code   *)
(* did before its repairs, and must be refuted.                                      *)
EXTENDS Wait, TLC
CONSTANTS Legacy, Depth
VARIABLES w, o
Lit == {[k |-> "ep", v |-> v] : v \in 0..2} \cup {[k |-> "acc", v |-> v] : v \in {0, 4, 8}} \cup
       {[k |-> "mae", v |-> v] : v \in {0, 2}} \cup {[k |-> "ms", v |-> v] : v \in {0, 3}}
None == -1
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
Low(a, b) == IF (IF Legacy THEN a > 0 /\ b > 0 ELSE a >= 0 /\ b >= 0) THEN Mn(a, b) ELSE Mx(a, b)
RECURSIVE Fold(_)
Fold(x) ==
    CASE x.k \in {"and", "or"} ->
            LET a == Fold(x.l) b == Fold(x.r) IN
            IF a.op = "refused" \/ b.op = "refused" \/ (IF Legacy THEN a.op ELSE a.op) \notin {"none", x.k}
               \/ (~Legacy /\ b.op \notin {"none", x.k}) THEN [a EXCEPT !.op = "refused"]
            ELSE IF x.k = "and"
                 THEN [op |-> "and", ep |-> Mx(a.ep, b.ep), acc |-> Mx(a.acc, b.acc), mae |-> Low(a.mae, b.mae), ms |-> Mx(a.ms, b.ms)]
                 ELSE [op |-> "or", ep |-> Low(a.ep, b.ep), acc |-> Low(a.acc, b.acc), mae |-> Mx(a.mae, b.mae), ms |-> Low(a.ms, b.ms)]
      [] OTHER -> [[op |-> "none", ep |-> None, acc |-> None, mae |-> None, ms |-> None] EXCEPT ![x.k] = x.v]
(* The evaluation of a folded criterion *)
FoldedOver(c, ob) ==
    LET ep == ob.ep >= c.ep /\ ob.ep >= 0
        acc == ob.n > 0 /\ 8 * ob.well >= c.acc * ob.n
        mae == ob.n > 0 /\ ob.abs <= c.mae * ob.n
        ms == ob.ms >= c.ms
    IN IF c.op = "and" THEN (ep \/ c.ep < 0) /\ (acc \/ c.acc < 0) /\ (mae \/ c.mae < 0) /\ (ms \/ c.ms < 0)
       ELSE (ep /\ c.ep >= 0) \/ (acc /\ c.acc >= 0) \/ (mae /\ c.mae >= 0) \/ (ms /\ c.ms >= 0)
Obs == [ep : {-1, 0, 1, 2}, n : {0, 1}, well : {0, 1}, abs : {0, 1, 4}, ms : {0, 3}]
      \cup {[ep |-> 1, n |-> 2, well |-> 1, abs |-> 4, ms |-> 0]}
Init == w \in Lit /\ o \in Obs
RECURSIVE Size(_)
Size(x) == IF x.k \in {"and", "or"} THEN Size(x.l) + Size(x.r) ELSE 1
Next == /\ Size(w) < Depth
        /\ \E k \in {"and", "or"} : \E x \in Lit : w' \in {[k |-> k, l |-> w, r |-> x], [k |-> k, l |-> x, r |-> w]}
                                       \cup (IF Size(w) < Depth - 1 THEN {[k |-> k, l |-> w, r |-> [k |-> k2, l |-> x, r |-> [k |-> "ep", v |-> 1]]] : k2 \in {"and", "or"}} ELSE {})
        /\ UNCHANGED o
Spec == Init /\ [][Next]_<<w, o>>
SameMeaning == Fold(w).op # "refused" => (FoldedOver(Fold(w), o) = Over(w, o) /\ Over(w, o) = FlatOver(w, o))
RefusedWhenMixed == (Fold(w).op = "refused") = Mixed(w)
===================================================================================
