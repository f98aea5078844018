----------------------------- MODULE ToolTrace -----------------------------
(* Recorded runs of fstrm_dump and fstrm_replay checked by ToolRules.       *)
EXTENDS ToolRules, Json, IOUtils
CONSTANT None
Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
VARIABLES t, l, o
vars == <<t, l, o>>
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ o = ToolInit
TraceNext == /\ l <= Len(Traces[t].ev) /\ l' = l + 1 /\ t' = t
             /\ o' = ToolStep(o, Traces[t].ev[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
PropertyHolds == Prop \notin o.bad
=============================================================================
