--------------------------------- MODULE ReportTrace --------------------------------
(* Recorded summaries and pictures of real networks, against Summary and Picture.          *)
EXTENDS Summary, Picture, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, bad, cov, cnt
Begin(ev) == [mode |-> "on", nets |-> [x \in {} |-> 0], q |-> <<>>, desc |-> <<>>]
Fresh(ev) == [q |-> Build(ev.desc), ms |-> ev.desc, name |-> "AutoSave.snn", epochs |-> 0, trainings |-> 0, lr |-> ev.lr, mom |-> ev.mom]
Shows(ev) == IF ev.k \in {"copy", "reload"} THEN ev.b ELSE ev.a
(* the network an operation is called on, after it *)
Called(st, ev) ==
    IF ev.k = "build" THEN Fresh(ev) ELSE
    LET n == st.nets[ev.a] IN
    CASE ev.k = "once" -> [n EXCEPT !.trainings = @ + 1]
      [] ev.k = "train" -> [n EXCEPT !.trainings = @ + ev.more, !.epochs = ev.epoch]
      [] ev.k = "setlr" -> [n EXCEPT !.lr = ev.lr]
      [] ev.k = "setmom" -> [n EXCEPT !.mom = ev.mom]
      [] ev.k \in {"save", "reload", "rename"} -> [n EXCEPT !.name = ev.name]
      [] OTHER -> n
SumFaults(st, ev) ==
    LET n == Called(st, ev) x == Summary(n) y == ev.sum IN
    (IF ev.opt # "StochasticGradientDescent" \/ ev.strange # 0 THEN {"C29: the summary does not name its optimizer, or says strange things"} ELSE {})
    \cup (IF Len(y.layers) # Len(x.layers) THEN {"C29: the summary has " \o ToString(Len(y.layers)) \o " layers"} ELSE {})
    \cup {"C29: the summary says " \o ToString(y.layers[i]) \o " of layer " \o ToString(i) \o ": " \o ToString(x.layers[i]) : i \in {j \in DOMAIN x.layers \cap DOMAIN y.layers : x.layers[j] # y.layers[j]}}
    \cup (IF [x EXCEPT !.layers = <<>>] # [y EXCEPT !.layers = <<>>] THEN {"C29: the summary says " \o ToString([y EXCEPT !.layers = <<>>]) \o " after " \o ev.k \o " instead of " \o ToString([x EXCEPT !.layers = <<>>])} ELSE {})
    \cup (IF ev.trainings # n.trainings THEN {"C29: " \o ToString(ev.trainings) \o " trainings are counted after " \o ev.k \o " instead of " \o ToString(n.trainings)} ELSE {})
    \cup (IF ev.epoch # n.epochs THEN {"C29: the current epoch changes with " \o ev.k} ELSE {})
(* v is in units of 2^-20: the colour is the part below it of 255 levels *)
Colour(c, v) == (c * 1048576) <= (255 * v) + 512 /\ ((c + 1) * 1048576) + 512 > 255 * v
PicFaults(st, ev) ==
    LET datum == ev.what = "datum"
        TwoD(i) == st.q[i].kind \in {"conv2", "lc2", "pool2"}
        wanted == IF datum THEN ev.there \/ TwoD(1) ELSE TwoD(ev.layer)
        P == IF datum THEN DatumPicture(ev.shape) ELSE TilesPicture(ev.shape)
        name == IF datum THEN "the datum" ELSE "layer " \o ToString(ev.layer)
        Px(x, y, c) == ev.px[(y * ev.w) + x + 1][c + 1]
        Shown(x, y, c) == IF datum THEN DatumAt(ev.shape, x, y, c) ELSE TileAt(ev.shape, x, y)
    IN IF ~wanted THEN (IF ~datum /\ ev.there THEN {"C30: a picture of " \o name \o ", which has none"} ELSE {})
       ELSE IF ~ev.there THEN {"C30: no picture of " \o name}
       ELSE IF ~ev.ok \/ ev.w # P.w \/ ev.h # P.h THEN {"C30: the picture of " \o name \o " of shape " \o ToString(ev.shape) \o " is " \o ToString(ev.w) \o " x " \o ToString(ev.h)}
       ELSE LET B == {p \in (0..ev.w - 1) \X (0..ev.h - 1) : \E c \in 0..2 : LET k == Shown(p[1], p[2], c) IN
                         IF k = None THEN Px(p[1], p[2], c) # 0 ELSE ~Colour(Px(p[1], p[2], c), ev.v[k + 1])}
            IN IF B = {} THEN {} ELSE LET p == CHOOSE z \in B : TRUE IN {"C30: pixel " \o ToString(p) \o " of the picture of " \o name \o " of shape " \o ToString(ev.shape) \o " is " \o ToString(ev.px[(p[2] * ev.w) + p[1] + 1])}
LGuard(st, ev) ==
    CASE ev.e = "op" -> SumFaults(st, ev)
      [] ev.e = "pic" -> PicFaults(st, ev)
      [] ev.e = "left" -> IF ev.n # 0 THEN {"C30: other files were written"} ELSE {}
      [] ev.e = "busy" -> IF ~ev.threw \/ ev.n # 0 THEN {"C30: pictures of a network being trained are not refused"} ELSE {}
      [] OTHER -> {}
LEffect(st, ev) ==
    CASE ev.e = "op" -> LET n == Called(st, ev) IN [st EXCEPT !.nets = (Shows(ev) :> n) @@ (ev.a :> n) @@ @]
      [] ev.e = "net" -> [st EXCEPT !.q = Build(ev.desc), !.desc = ev.desc]
      [] OTHER -> st
LAfter(st) == {}
LCover(st, ev) ==
    CASE ev.e = "op" -> LET n == Called(st, ev) IN {<<ev.k, n.q[i].kind, [j \in DOMAIN n.ms[i + 1].opts |-> n.ms[i + 1].opts[j].k]>> : i \in DOMAIN n.q}
      [] ev.e = "pic" -> {<<ev.what, IF ev.layer = 0 THEN "" ELSE st.q[ev.layer].kind, ev.shape[1], ev.there>>}
      [] OTHER -> {<<ev.e>>}
LKnown(st, ev) == {}
R == INSTANCE Runner WITH Guard <- LGuard, Effect <- LEffect, After <- LAfter, Cover <- LCover, Known <- LKnown
Spec == R!Spec
Report == R!Report
=====================================================================================
