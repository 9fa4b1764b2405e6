-------------------------------- MODULE TimeSeries --------------------------------
(* The design behind C07: how a time series is cut into windows, epoch after epoch. *)
(* Shuffle cuts the series, from an offset that moves by one at every epoch, into   *)
(* windows of R+1 data presented in any order; only the last datum of a window is   *)
(* trained on; the data before the first window are presented first, in order, and  *)
(* all trained on; what remains at the end is presented but not trained on.         *)
(* TLC checks, for every size and every order of the windows, that the design gives *)
(* every trained datum its window and covers the whole series in R+1 epochs.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxN, MaxR,
          Moving      \* FALSE: the offset stays where it is (coverage is then lost: the check is not vacuous)
VARIABLES n, R, offset, blocks, idx, need, first, cover, epochs, given
vars == <<n, R, offset, blocks, idx, need, first, cover, epochs, given>>
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
W == R + 1
Perms(k) == {p \in [1..k -> 0..(k-1)] : \A i, j \in 1..k : i # j => p[i] # p[j]}
Init == /\ n \in 1..MaxN /\ R \in 1..MaxR
        /\ offset = 0
        /\ blocks = [i \in 1..(n \div (R + 1)) |-> i - 1]
        /\ idx = [i \in 0..(n-1) |-> i]
        /\ need = [i \in 0..(n-1) |-> TRUE]
        /\ first = [i \in 0..(n-1) |-> i = 0]
        /\ cover = <<>> /\ epochs = 0 /\ given = TRUE

Fits(b) == b * W + R + offset < n
(* the position of the k-th fitting window *)
RECURSIVE Fit(_, _)
Fit(p, i) == IF i > Len(p) THEN <<>> ELSE IF Fits(p[i]) THEN <<p[i]>> \o Fit(p, i + 1) ELSE Fit(p, i + 1)
Shuffle ==
    \E p \in Perms(Len(blocks)) :
      LET fit == Fit(p, 1)
          placed == offset + W * Len(fit)
          pre == Min(offset, n)
          in(i) == i >= offset /\ i < placed
          k(i) == fit[1 + ((i - offset) \div W)]
          j(i) == (i - offset) % W
      IN /\ blocks' = p
         /\ idx' = [i \in 0..(n-1) |-> IF i < pre THEN i ELSE IF in(i) THEN k(i) * W + j(i) + offset ELSE idx[i]]
         /\ need' = [i \in 0..(n-1) |-> IF i < pre THEN TRUE ELSE IF in(i) THEN j(i) = R
                                        ELSE IF i >= Max(0, n - W) THEN FALSE ELSE need[i]]
         /\ first' = [i \in 0..(n-1) |-> IF in(i) THEN j(i) = 0 ELSE IF i = 0 THEN TRUE ELSE IF i < pre THEN FALSE ELSE first[i]]
         /\ offset' = IF Moving THEN (offset + 1) % W ELSE offset
         /\ cover' = IF Len(cover) = W THEN Append(Tail(cover), {idx'[i] : i \in {x \in 0..(n-1) : need'[x]}})
                                       ELSE Append(cover, {idx'[i] : i \in {x \in 0..(n-1) : need'[x]}})
         /\ epochs' = epochs + 1 /\ given' = FALSE
         /\ UNCHANGED <<n, R>>
Unshuffle == /\ idx' = [i \in 0..(n-1) |-> i] /\ need' = [i \in 0..(n-1) |-> TRUE] /\ first' = [i \in 0..(n-1) |-> i = 0]
             /\ given' = TRUE /\ UNCHANGED <<n, R, offset, blocks, cover, epochs>>
Next == epochs < 2 * W + 1 /\ (Shuffle \/ (epochs > 0 /\ epochs % 2 = 0 /\ Unshuffle))
Spec == Init /\ [][Next]_vars

Start(i) == CHOOSE x \in 0..i : first[x] /\ \A y \in (x+1)..i : ~first[y]
Presented(i) == [x \in 1..(i - Start(i) + 1) |-> idx[Start(i) + x - 1]]
Window(id) == LET f == Max(0, id - R) IN [x \in 1..(id - f + 1) |-> f + x - 1]
InOrder == \A i \in 0..(n-1) : idx[i] \in 0..(n-1)
WindowsAreWhole == ~given => \A i \in 0..(n-1) : need[i] => (Presented(i) = Window(idx[i]))
NoDatumTwice == ~given => \A i, j \in 0..(n-1) : (i # j /\ need[i] /\ need[j]) => idx[i] # idx[j]
Coverage == Len(cover) = W => UNION {cover[x] : x \in 1..W} = 0..(n-1)
===================================================================================
