------------------------------ MODULE ActivationTrace ------------------------------
(* Recorded outputs and learning slopes of real neurons, against Activation (C25).      *)
EXTENDS Activation, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, bad, cov, cnt
Begin(ev) == [mode |-> "on", a |-> ev.a]
(* near: |x| <= 16, x, y, d in U. far: y or (where it grows) y / x, and the slope *)
AGuard(st, ev) ==
    CASE ev.e = "near" ->
           (IF Near(ev.y, F(st.a, ev.x), Grain(st.a, ev.x)) THEN {} ELSE {"C25: " \o st.a \o " of " \o ev.t \o " (" \o ev.how \o ") is " \o ToString(ev.y) \o " instead of " \o ToString(F(st.a, ev.x)) \o " / 16384"})
           \cup (IF ev.sgn = 0 /\ st.a = "ReLU" THEN {}                                         \* the slope at the corner is a convention
                 ELSE IF Near(ev.d, Slope(st.a, ev.x, ev.sgn), SlopeGrain(st.a, ev.x)) THEN {}
                 ELSE {"C25: the slope of " \o st.a \o " at " \o ev.t \o " (" \o ev.how \o ") is " \o ToString(ev.d) \o " instead of " \o ToString(Slope(st.a, ev.x, ev.sgn)) \o " / 16384"})
      [] ev.e = "far" ->
           (IF IF Grows(st.a, ev.sgn) THEN Near(ev.ratio, FarRatio(st.a, ev.inv, ev.sgn), 4) ELSE Near(ev.y, FarValue(st.a, ev.sgn), 3) THEN {}
            ELSE {"C25: " \o st.a \o " of " \o ev.t \o " (" \o ev.how \o ") is wrong"})
           \cup (IF Near(ev.d, FarSlope(st.a, ev.sgn), 6) THEN {} ELSE {"C25: the slope of " \o st.a \o " at " \o ev.t \o " (" \o ev.how \o ") is wrong"})
      [] OTHER -> {}
AEffect(st, ev) == st
AAfter(st) == {}
ACover(st, ev) == IF ev.e \in {"near", "far"} THEN {<<st.a, ev.e, ev.how, ev.sgn, IF ev.e = "near" THEN AbsV(ev.x) \div (2 * U) ELSE ev.inv \div 256>>} ELSE {}
AKnown(st, ev) == {}
R == INSTANCE Runner WITH Guard <- AGuard, Effect <- AEffect, After <- AAfter, Cover <- ACover, Known <- AKnown
Spec == R!Spec
Report == R!Report
====================================================================================
