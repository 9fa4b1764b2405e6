---------------------------------- MODULE TwinsTrace ----------------------------------
(* Recorded operations on several real networks, against Twins.                          *)
EXTENDS Twins, Json, IOUtils
Ar == INSTANCE Arch
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, bad, cov, cnt
Empty == [x \in {} |-> 0]
(* slots: network -> [v, d, rec, lin, wild]; W, S: what was seen of the numbers; by: whence each key's number comes *)
Begin(ev) == [mode |-> "on", slots |-> Empty, files |-> Empty, tab |-> Empty, by |-> Empty, next |-> 1, W |-> Empty, S |-> Empty, N |-> Empty, rep |-> Empty, W0 |-> Empty]
Structure(ev) == [L |-> Ar!Build(ev.desc), acts |-> [i \in DOMAIN ev.desc |-> ev.desc[i].act], opts |-> [i \in DOMAIN ev.desc |-> ev.desc[i].opts], lr |-> ev.lr, mom |-> ev.mom]
IsRec(d) == \E i \in DOMAIN d.L : d.L[i].kind \in {"rec", "gru"}
(* A network that remembers an anomaly learns and evaluates otherwise (C12): the anomaly belongs to what decides the effect. *)
Anomalous(st, ev) == LET h == st.slots[ev.a].v.h IN h \in DOMAIN st.N /\ st.N[h]
OpOf(st, ev, rec) == [k |-> ev.k, y |-> <<ev.file, ev.reset>>,
    x |-> (IF ev.k \in Predicting \cup {"once"} THEN <<ev.arg, ev.wild, IF rec THEN ev.reset ELSE TRUE>> ELSE <<ev.arg>>)
          \o (IF ev.k \notin Predicting /\ Anomalous(st, ev) THEN <<"anomaly">> ELSE <<>>)]
Zero == [p |-> 0, s |-> 0, h |-> 0]
SOp(ev) == [k |-> "train", x |-> <<"build", ToString(ev.desc), ev.lr, ev.mom, ev.arg>>, y |-> <<>>]
(* the slot an event makes or changes, and what it is afterwards *)
Target(ev) == IF ev.k \in {"copy", "load"} THEN ev.b ELSE ev.a
Post(st, ev) ==
    CASE ev.k = "build" -> LET d == Structure(ev) IN [v |-> After3(st.tab, st.next, Zero, SOp(ev), FALSE, ev.det), d |-> d, rec |-> IsRec(d), lin |-> {}, wild |-> FALSE]
      [] ev.k = "copy" -> [st.slots[ev.a] EXCEPT !.lin = @ \cup {"C14"}]
      [] ev.k = "load" -> [[x \in DOMAIN st.files[ev.file] \ {"auto"} |-> st.files[ev.file][x]] EXCEPT !.lin = @ \cup {"C13"}]
      [] ev.k \in {"eq", "destroy"} -> st.slots[ev.a]
      [] OTHER -> LET q == st.slots[ev.a] IN
            [q EXCEPT !.v = After3(st.tab, st.next, q.v, OpOf(st, ev, q.rec), q.rec, ev.det), !.wild = @ \/ ev.wild,
                      !.d.lr = IF ev.k = "setlr" THEN ev.lr ELSE @, !.d.mom = IF ev.k = "setmom" THEN ev.mom ELSE @]
TagList(S) == SelectSeq(<<"C13", "C14", "C15">>, LAMBDA t : t \in S)
Tags(S) == LET q == TagList(S) IN q[1] \o (IF Len(q) > 1 THEN "," \o q[2] ELSE "") \o (IF Len(q) > 2 THEN "," \o q[3] ELSE "")
Blame(st, ev, q) ==
    LET old == IF ev.k = "build" THEN Zero ELSE st.slots[ev.a].v
        op == IF ev.k = "build" THEN SOp(ev) ELSE OpOf(st, ev, q.rec)
        ks == {Key(part, old, op, q.rec) : part \in {"p", "s"}} \cap DOMAIN st.by
        S == q.lin \cup UNION {st.by[k] : k \in ks}
    IN IF S # {} THEN Tags(S) ELSE IF q.rec THEN "C19" ELSE "C21"
LiveOf(ev, n) == CHOOSE x \in {ev.live[i] : i \in DOMAIN ev.live} : x.s = n
Lives(ev) == {ev.live[i].s : i \in DOMAIN ev.live}
Expect(st, ev) == IF ev.k = "destroy" THEN DOMAIN st.slots \ {ev.a} ELSE DOMAIN st.slots \cup {Target(ev)}
Differs(f, k, x) == k \in DOMAIN f /\ f[k] # x
Threw(ev) == CASE ev.k = "copy" -> "C14" [] ev.k \in {"save", "load"} -> "C13" [] ev.k = "eq" -> "C15" [] ev.k \in Predicting -> "C21" [] OTHER -> "C13,C14,C21"
ReplyKey(st, ev) == LET q == st.slots[ev.a] IN <<q.v.p, IF ev.k \in Judging THEN q.v.s ELSE 0, ev.k, OpOf(st, ev, q.rec).x>>
Replies == Predicting \cup {"evalsave"}
EqFaults(st, ev) ==
    LET x == st.slots[ev.a] y == st.slots[ev.b]
        differ == x.d # y.d \/ LiveOf(ev, ev.a).P # LiveOf(ev, ev.b).P
    IN IF ev.nxy = ev.xy \/ ev.nyx = ev.yx THEN {"C15: inequality is not the negation of equality"}
       ELSE IF ev.xy # ev.yx THEN {"C15: equality is not symmetric"}
       ELSE IF x.d # y.d /\ ev.xy THEN {"C15: networks of different descriptions compare equal: " \o ToString(x.d) \o " and " \o ToString(y.d)}
       ELSE IF LiveOf(ev, ev.a).P # LiveOf(ev, ev.b).P /\ ev.xy /\ ~x.wild /\ ~y.wild THEN {"C15: networks of different parameters compare equal"}
       ELSE IF MustEqual(x.v, y.v) /\ ~ev.xy /\ ~x.wild /\ ~y.wild THEN {Tags(x.lin \cup y.lin \cup {"C15"}) \o ": networks of the same description and history compare different"}
       ELSE {}
LGuard(st, ev) ==
    IF ev.e = "done" THEN {} ELSE
    IF ev.threw # "" THEN {Threw(ev) \o ": " \o ev.k \o " fails: " \o ev.threw} ELSE
    IF Lives(ev) # Expect(st, ev) THEN {"*: the driver lost a network"} ELSE
    LET q == Post(st, ev) t == Target(ev)
        others == {n \in DOMAIN st.slots \cap Lives(ev) : n # t}
        moved == {n \in others : Differs(st.W, st.slots[n].v.p, LiveOf(ev, n).W) \/ Differs(st.S, st.slots[n].v.s, LiveOf(ev, n).S)}
        me == LiveOf(ev, t)
        what == ev.k \o (IF ev.k \in {"copy", "load", "build"} THEN "" ELSE " on network " \o ToString(ev.a))
    IN {(IF ev.k \in {"save", "load"} THEN "C13" ELSE "C14") \o ": " \o what \o " changes network " \o ToString(n) : n \in moved}
       \cup (IF ev.k = "destroy" THEN {} ELSE
             (IF ~me.idle THEN {(IF "C13" \in q.lin THEN "C13" ELSE "C14") \o ": the network is not idle after " \o what} ELSE {})
             \cup (IF Differs(st.W, q.v.p, me.W) THEN {(IF ev.k = "copy" THEN "C14" ELSE IF ev.k = "load" THEN "C13" ELSE Blame(st, ev, q)) \o ": other parameters after " \o what \o " than another network of the same history"} ELSE {})
             \cup (IF Differs(st.S, q.v.s, me.S) THEN {(IF ev.k = "copy" THEN "C14" ELSE IF ev.k = "load" THEN "C13" ELSE Blame(st, ev, q)) \o ": other statistics after " \o what \o " than another network of the same history"} ELSE {})
             \cup (IF Differs(st.N, q.v.h, me.nan) THEN {(IF ev.k = "copy" THEN "C14" ELSE IF ev.k = "load" THEN "C13" ELSE Blame(st, ev, q)) \o ",C12: non-finite outputs are remembered differently after " \o what \o " than by another network of the same history"} ELSE {})
             \cup (IF ev.k \in Predicting \cup Judging \cup {"save", "eq"} /\ Differs(st.W, st.slots[ev.a].v.p, me.W) THEN {"C18,C21: " \o what \o " changes the parameters"} ELSE {})
             \cup (IF ev.k \in Predicting \cup {"save", "eq", "once"} /\ Differs(st.S, st.slots[ev.a].v.s, me.S) THEN {"C10,C21: " \o what \o " changes the statistics"} ELSE {}))
       \cup (IF ev.k \in Replies /\ Differs(st.rep, ReplyKey(st, ev), ev.reply) THEN {Blame(st, ev, q) \o ": " \o what \o " gives another result than on another network of the same history, or than before"} ELSE {})
       \cup (IF ev.k = "cluster" /\ "rank" \in DOMAIN ev THEN
                IF \E i \in DOMAIN ev.rank : ev.reply = ToString(i - 1) /\ (\A j \in DOMAIN ev.rank : ev.rank[j] <= ev.rank[i]) /\ (\A j \in 1..i - 1 : ev.rank[j] < ev.rank[i]) THEN {}
                   ELSE {"C21: class " \o ev.reply \o " predicted for outputs ranked " \o ToString(ev.rank)} ELSE {})
       \cup (IF ev.k = "load" /\ (ev.auto # st.files[ev.file].auto \/ ~ev.path) THEN {"C13: the loaded network saves itself on other occasions, or elsewhere, than the saved one"} ELSE {})
       \cup (IF ev.k = "eq" THEN EqFaults(st, ev) ELSE {})
Bind(f, k, x) == IF k \in DOMAIN f THEN f ELSE (k :> x) @@ f
(* Networks that compare equal (and differ in nothing the recording shows) go on alike. *)
Merges(st, ev) == ev.k = "eq" /\ ev.xy /\ ev.yx /\ LET x == st.slots[ev.a] y == st.slots[ev.b] IN
    x.d = y.d /\ ~x.wild /\ ~y.wild /\ LiveOf(ev, ev.a).W = LiveOf(ev, ev.b).W
LEffect(st, ev) ==
    IF ev.e = "done" THEN st ELSE
    IF ev.k = "eq" THEN (IF Merges(st, ev) /\ st.slots[ev.a].v.p # st.slots[ev.b].v.p
                         THEN [st EXCEPT !.slots[ev.b].v = Alike(st.slots[ev.a].v, @), !.slots[ev.b].lin = @ \cup {"C15"}, !.slots[ev.a].lin = @ \cup {"C15"}] ELSE st) ELSE
    IF ev.k = "destroy" THEN [st EXCEPT !.slots = [n \in DOMAIN @ \ {ev.a} |-> @[n]]] ELSE
    LET q == Post(st, ev) t == Target(ev) me == LiveOf(ev, t)
        makes == ev.k \notin {"copy", "load", "eq"}
        old == IF ev.k = "build" THEN Zero ELSE IF makes THEN st.slots[ev.a].v ELSE Zero
        op == IF ev.k = "build" THEN SOp(ev) ELSE OpOf(st, ev, q.rec)
        rec == IF ev.k = "build" THEN FALSE ELSE q.rec
        tab2 == IF makes THEN Learned(st.tab, st.next, old, op, rec, ev.det) ELSE st.tab
        newk == DOMAIN tab2 \ DOMAIN st.tab
        auto == [v |-> [p |-> st.next + 3, s |-> st.next + 4, h |-> st.next + 5], d |-> q.d, rec |-> q.rec, lin |-> q.lin, wild |-> q.wild]
        \* what is in a file: the network as it is after save; evaluated and saving when better: the same, with another history; saved during a training: some network
        content == CASE ev.k = "save" -> q [] ev.k = "evalsave" -> [q EXCEPT !.v.h = st.next + 5] [] OTHER -> auto
    IN [st EXCEPT !.slots = (t :> q) @@ @, !.tab = tab2, !.next = @ + 6,
                  !.by = [k \in newk |-> q.lin] @@ @,
                  !.W = Bind(@, q.v.p, me.W), !.S = Bind(@, q.v.s, me.S), !.N = Bind(@, q.v.h, me.nan),
                  !.rep = IF ev.k \in Replies THEN Bind(@, ReplyKey(st, ev), ev.reply) ELSE @,
                  !.files = IF ev.saved THEN (ev.file :> [x \in DOMAIN content \cup {"auto"} |-> IF x = "auto" THEN ev.k # "save" ELSE content[x]]) @@ @ ELSE @]
LAfter(st) == {}
LCover(st, ev) == IF ev.e = "done" \/ ev.k = "destroy" THEN {<<ev.e>>} ELSE LET q == Post(st, ev) IN {<<ev.k, q.d.L[i].kind, q.lin, q.d.opts[i + 1] # <<>>, ev.det>> : i \in DOMAIN q.d.L}
LKnown(st, ev) == {}
R == INSTANCE Runner WITH Guard <- LGuard, Effect <- LEffect, After <- LAfter, Cover <- LCover, Known <- LKnown
Spec == R!Spec
Report == R!Report
=======================================================================================
