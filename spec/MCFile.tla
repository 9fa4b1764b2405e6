---------------------------------- MODULE MCFile ----------------------------------
(* Saves character by character, that may fail or die anywhere, against File.  A      *)
(* network of version v is written as the characters <<v, v, NL>> (its last number    *)
(* has two digits).  How: "atomic" writes beside the file, checks, then replaces it;  *)
(* "inplace" truncates the file and writes into it; "unchecked" writes beside it and  *)
(* replaces it without checking; "removes" deletes the file before it renames the     *)
(* new one.  Eager: the loader takes a number that the end of the file cut.           *)
EXTENDS File, Sequences, TLC
CONSTANTS How, Eager, MaxSaves
VARIABLES file, tmp, pc, v, may, broken, told
vars == <<file, tmp, pc, v, may, broken, told>>
NL == 99
Text(k) == <<k, k, NL>>
None == <<-1>>                                       \* no file
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
(* the digits read d1 d2: the value is 10 * d1 + d2, a cut one is d1: another version *)
Load(f) == IF f = None THEN 0
           ELSE IF Len(f) = 3 THEN f[1]
           ELSE IF Eager /\ Len(f) = 2 /\ f[1] = f[2] THEN f[1]
           ELSE IF Eager /\ Len(f) = 1 THEN -1       \* something else than what was saved
           ELSE 0
Target == IF How = "inplace" THEN file ELSE tmp
Init == file = None /\ tmp = None /\ pc = "idle" /\ v = 0 /\ may = FileInit /\ broken = FALSE /\ told = "nothing"
Begin == /\ pc = "idle" /\ v < MaxSaves /\ v' = v + 1 /\ pc' = "write" /\ broken' = FALSE /\ told' = "nothing"
         /\ IF How = "inplace" THEN file' = <<>> /\ UNCHANGED tmp ELSE tmp' = <<>> /\ UNCHANGED file
         /\ UNCHANGED may
Put(f) == IF How = "inplace" THEN file' = f /\ UNCHANGED tmp ELSE tmp' = f /\ UNCHANGED file
Write == /\ pc = "write" /\ ~broken /\ Len(Target) < 3 /\ Put(Append(Target, Text(v)[Len(Target) + 1])) /\ UNCHANGED <<pc, v, may, broken, told>>
Fail == /\ pc = "write" /\ ~broken /\ Len(Target) < 3 /\ broken' = TRUE /\ UNCHANGED <<file, tmp, pc, v, may, told>>
Close == /\ pc = "write" /\ (broken \/ Len(Target) = 3)
         /\ IF broken /\ How # "unchecked"
            THEN pc' = "idle" /\ told' = "refused" /\ may' = Refused(may, v) /\ UNCHANGED <<file, tmp>>
            ELSE IF How = "inplace" THEN pc' = "idle" /\ told' = "ok" /\ may' = Saved(may, v) /\ UNCHANGED <<file, tmp>>
            ELSE pc' = (IF How = "removes" THEN "remove" ELSE "rename") /\ UNCHANGED <<file, tmp, told, may>>
         /\ UNCHANGED <<v, broken>>
Remove == pc = "remove" /\ file' = None /\ pc' = "rename" /\ UNCHANGED <<tmp, v, may, broken, told>>
Rename == pc = "rename" /\ file' = tmp /\ tmp' = None /\ pc' = "idle" /\ told' = "ok" /\ may' = Saved(may, v) /\ UNCHANGED <<v, broken>>
Die == pc # "idle" /\ pc' = "idle" /\ told' = "died" /\ may' = Died(may, v) /\ UNCHANGED <<file, tmp, v, broken>>
Next == Begin \/ Write \/ Fail \/ Close \/ Remove \/ Rename \/ Die
Spec == Init /\ [][Next]_vars
FileHoldsAVersion == pc = "idle" => LoadOK(may, Load(file))
RefusalIsTold == pc = "idle" /\ broken => told \in {"refused", "died"}
NeverAnother == Load(file) # -1
(* any file cut anywhere loads as itself or not at all *)
CutsAreNoticed == \A k \in 1..MaxSaves : \A n \in 0..3 : CutOK(k, 3 - n, Load(SubSeq(Text(k), 1, n)))
CutsNoticed == v >= 1 => CutsAreNoticed
====================================================================================
