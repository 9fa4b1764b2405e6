---------------------------------- MODULE Stats ----------------------------------
(* Evaluation statistics (C10), over exact integers.                               *)
(* Outputs and expectations are integers, in quarters (value = integer / 4).       *)
(* A tally is the exact state of one evaluation; the reported statistics are       *)
(* compared with it as rationals.                                                  *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Close(a, b, tol) == Abs(a - b) <= tol

RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

(* The class predicted by a vector of outputs: the first largest one (1-based). *)
ArgMax(out) == CHOOSE i \in DOMAIN out :
                  /\ \A j \in DOMAIN out : out[j] <= out[i]
                  /\ \A j \in 1..(i-1) : out[j] < out[i]

EmptyTally(k) == [n |-> 0, well |-> 0, abs |-> 0, sq |-> 0,
                  tp |-> [i \in 1..k |-> 0], fp |-> [i \in 1..k |-> 0], fn |-> [i \in 1..k |-> 0]]

(* One scored datum.  problem: "cls" | "mul" | "reg"; des: the expected outputs (for a           *)
(* classification, the one-hot vector of the class); lim: separator or precision (quarters).   *)
(* For a regression an output above (below) the tolerance is a false positive (negative).      *)
Tally(t, problem, out, des, lim) ==
    LET K  == DOMAIN des
        tp(i) == problem # "reg" /\ out[i] > lim /\ des[i] > lim
        fp(i) == IF problem = "reg" THEN out[i] > des[i] + lim ELSE out[i] > lim /\ des[i] <= lim
        fn(i) == IF problem = "reg" THEN out[i] < des[i] - lim ELSE out[i] <= lim /\ des[i] > lim
        well  == IF problem = "cls" THEN des[ArgMax(out)] = 4
                 ELSE \A i \in K : ~fp(i) /\ ~fn(i)
    IN [n    |-> t.n + 1,
        well |-> t.well + (IF well THEN 1 ELSE 0),
        abs  |-> t.abs + SumSeq([i \in K |-> Abs(des[i] - out[i])]),
        sq   |-> t.sq + SumSeq([i \in K |-> (des[i] - out[i]) * (des[i] - out[i])]),
        tp   |-> [i \in K |-> t.tp[i] + (IF tp(i) THEN 1 ELSE 0)],
        fp   |-> [i \in K |-> t.fp[i] + (IF fp(i) THEN 1 ELSE 0)],
        fn   |-> [i \in K |-> t.fn[i] + (IF fn(i) THEN 1 ELSE 0)]]

(* For a classification the separator decides positives with the class as expectation: the class *)
(* itself is positive whatever the separator.                                                  *)
TallyCls(t, out, des, lim) ==
    LET K == DOMAIN des
        cl(i) == des[i] = 4
    IN [Tally(t, "cls", out, des, lim) EXCEPT
        !.tp = [i \in K |-> t.tp[i] + (IF cl(i) /\ out[i] > lim THEN 1 ELSE 0)],
        !.fp = [i \in K |-> t.fp[i] + (IF ~cl(i) /\ out[i] > lim THEN 1 ELSE 0)],
        !.fn = [i \in K |-> t.fn[i] + (IF cl(i) /\ out[i] <= lim THEN 1 ELSE 0)]]

Score(t, problem, out, des, lim) == IF problem = "cls" THEN TallyCls(t, out, des, lim)
                                    ELSE Tally(t, problem, out, des, lim)

(* Reported statistics are fixed-point: acc, wr, f1 in 1e-6, mae in 1e-5, rm2/rm3 in 1e-2/1e-3. *)
WeightedRate6(t) == SumSeq([i \in DOMAIN t.tp |-> IF t.tp[i] = 0 THEN 0 ELSE (1000000 * t.tp[i]) \div (t.tp[i] + t.fn[i])]) \div Len(t.tp)
F1Score6(t) == SumSeq([i \in DOMAIN t.tp |-> IF t.tp[i] = 0 THEN 0
                       ELSE (2000000 * t.tp[i]) \div (2 * t.tp[i] + t.fp[i] + t.fn[i])]) \div Len(t.tp)
SqrtMatches(r, num, den, scale2) ==      \* r = round(scale * sqrt(num/den)), scale2 = scale^2
    /\ r >= 0
    /\ (IF r = 0 THEN 0 ELSE (r - 1) * (r - 1)) * den <= scale2 * num + den
    /\ scale2 * num <= (r + 1) * (r + 1) * den

Sane(st) == \A f \in DOMAIN st : st[f] < 200000000 /\ st[f] > -200000000

StatFaults(t, st) == IF ~Sane(st) THEN {"statistics are not numbers"} ELSE
    (IF Close(st.acc * t.n, 1000000 * t.well, 3 * t.n) THEN {} ELSE {"accuracy"})
    \cup (IF Close(st.wr, WeightedRate6(t), 15) THEN {} ELSE {"weighted clustering rate"})
    \cup (IF Close(st.f1, F1Score6(t), 15) THEN {} ELSE {"F1 score"})
    \cup (IF Close(st.mae * t.n, 25000 * t.abs, 12 * t.n) THEN {} ELSE {"mean absolute error"})
    \cup (IF /\ (t.sq <= 3000 /\ st.rm3 < 12000) => SqrtMatches(st.rm3, 62500 * t.sq, t.n, 1)
             /\ st.rm3 < 12000 => st.rm2 < 1300
             /\ st.rm2 < 12000 /\ SqrtMatches(st.rm2, 625 * t.sq, t.n, 1) THEN {} ELSE {"root mean squared error"})
==================================================================================
