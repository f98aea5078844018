----------------------------- MODULE IsoTrace ------------------------------
(* Recorded runs of several objects side by side, checked against IsoRules. *)
EXTENDS IsoRules, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
PROP == IOEnv.PROP
VARIABLES t, l, o
vars == <<t, l, o>>
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ o = IsoInit(Traces[t].objs)
TraceNext == /\ l <= Len(Traces[t].ev)
             /\ o' = IsoStep(Traces[t].objs, o, Traces[t].ev[l])
             /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
PropertyHolds == PROP \notin o.bad
=============================================================================
