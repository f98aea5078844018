---------------------------- MODULE EndureTrace -----------------------------
(* Recorded runs of the programs, checked against EndureRules. *)
EXTENDS EndureRules, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
PROP == IOEnv.PROP
VARIABLES t, l, o
vars == <<t, l, o>>
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ o = EndInit
TraceNext == /\ l <= Len(Traces[t].ev)
             /\ o' = EndStep(o, Traces[t].ev[l])
             /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
PropertyHolds == PROP \notin o.bad
=============================================================================
