---------------------------- MODULE CaptureTrace ----------------------------
(* Recorded runs of fstrm_capture, checked against CaptureRules. *)
EXTENDS CaptureRules, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
PROP == IOEnv.PROP
VARIABLES t, l, o
vars == <<t, l, o>>
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ o = CapInit
TraceNext == /\ l <= Len(Traces[t].ev)
             /\ o' = CapStep(o, Traces[t].ev[l])
             /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
PropertyHolds == PROP \notin o.bad
=============================================================================
