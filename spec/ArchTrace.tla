---------------------------------- MODULE ArchTrace ----------------------------------
(* Descriptions given to the real factory, against Arch.                               *)
EXTENDS Arch, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, bad, cov, cnt
RECURSIVE SumFrom(_, _)
SumFrom(q, i) == IF i > Len(q) THEN 0 ELSE q[i] + SumFrom(q, i + 1)
(* learning rate and momentum in units of 1/1000000 *)
RateOk(ev) == ev.lr > 0 /\ ev.lr < 1000000 /\ ev.mom >= 0 /\ ev.mom <= 1000000
Expected(ev) == Build(ev.models)
Accepted(ev) == ~Refused(Expected(ev)) /\ RateOk(ev)
Shown(q) == [i \in DOMAIN q |-> [kind |-> q[i].kind, in |-> q[i].in, out |-> q[i].out, nin |-> q[i].nin, neurons |-> q[i].neurons, params |-> q[i].params]]
Totals(q) == [layers |-> Len(q), nin |-> q[1].nin, nout |-> q[Len(q)].nout,
              neurons |-> SumFrom([i \in DOMAIN q |-> q[i].neurons], 1), params |-> SumFrom([i \in DOMAIN q |-> q[i].params], 1)]
Begin(ev) == [mode |-> "on", q |-> <<>>]
LGuard(st, ev) ==
    CASE ev.e = "refused" -> IF Accepted(ev) THEN {"C20: a well-formed description is refused: " \o ToString(ev.models) \o " rate " \o ToString(ev.lr) \o " momentum " \o ToString(ev.mom)} ELSE {}
      [] ev.e = "built" -> LET q == Expected(ev) IN
            IF ~Accepted(ev) THEN {"C20: an ill-formed description is accepted: " \o ToString(ev.models) \o " rate " \o ToString(ev.lr) \o " momentum " \o ToString(ev.mom)}
            ELSE IF Shown(q) # ev.ls THEN {"C16,C20: the layers are not those of the description"}
            ELSE IF Totals(q) # ev.tot THEN {"C20: the totals of the network are not the sums over its layers"}
            ELSE {}
      [] ev.e = "used" -> IF ev.out # st.q[Len(st.q)].nout THEN {"C16,C20: wrong number of outputs"} ELSE {}
      [] ev.e = "again" -> IF Shown(st.q) # ev.ls \/ Totals(st.q) # ev.tot THEN {"C13,C14,C20: another architecture after " \o ev.how} ELSE {}
      [] ev.e = "done" -> {}
LEffect(st, ev) == IF ev.e = "built" THEN [st EXCEPT !.q = Expected(ev)] ELSE st
LAfter(st) == {}
Why(ev) == IF ~RateOk(ev) THEN "rate" ELSE IF Len(ev.models) < 2 \/ Len(ev.models) > 1000 THEN "length" ELSE IF ev.models[1].t # "input" THEN "first" ELSE "layer"
LCover(st, ev) == IF ev.e = "built" THEN LET q == Expected(ev) IN {<<"built", q[i].kind, i = 1, Len(q)>> : i \in DOMAIN q}
                  ELSE IF ev.e = "refused" THEN {<<"refused", Why(ev), IF Len(ev.models) > 1 /\ Len(ev.models) < 5 THEN [i \in 2..Len(ev.models) |-> ev.models[i].t] ELSE <<>>>>} ELSE {<<ev.e>>}
LKnown(st, ev) == {}
R == INSTANCE Runner WITH Guard <- LGuard, Effect <- LEffect, After <- LAfter, Cover <- LCover, Known <- LKnown
Spec == R!Spec
Report == R!Report
=====================================================================================
