------------------------------ MODULE IoTrace ------------------------------
(* Recorded executions of the reader and writer, checked against IoRules.  *)
EXTENDS IoRules, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
PROP == IOEnv.PROP
VARIABLES t, l, o
vars == <<t, l, o>>
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ o = IoInit
TraceNext == /\ l <= Len(Traces[t].ev)
             /\ o' = IoStep(Traces[t].cfg, o, Traces[t].ev[l])
             /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
PropertyHolds == PROP \notin o.bad
=============================================================================
