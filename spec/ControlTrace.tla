---------------------------- MODULE ControlTrace ----------------------------
(* Recorded executions of the control API, checked against Control.        *)
EXTENDS Control, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
PROP == IOEnv.PROP
VARIABLES t, l, o
vars == <<t, l, o>>
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ o = ObsInit
TraceNext == /\ l <= Len(Traces[t].ev)
             /\ o' = Step(o, Traces[t].ev[l])
             /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
PropertyHolds == PROP \notin o.bad
=============================================================================
