----------------------------- MODULE IothrTrace -----------------------------
(* Recorded executions of the I/O thread, checked against IothrRules. *)
EXTENDS IothrRules, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
PROP == IOEnv.PROP
VARIABLES t, l, o
vars == <<t, l, o>>
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ o = IothrInit(Traces[t].cfg)
TraceNext == /\ l <= Len(Traces[t].ev)
             /\ o' = IothrStep(Traces[t].cfg, o, Traces[t].ev[l])
             /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
PropertyHolds == PROP \notin o.bad
=============================================================================
