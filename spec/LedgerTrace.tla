---------------------------- MODULE LedgerTrace ----------------------------
(* Recorded books of real handles, checked against LedgerRules. *)
EXTENDS LedgerRules, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
PROP == IOEnv.PROP
VARIABLES t, l, o
vars == <<t, l, o>>
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ o = LedgerInit
TraceNext == /\ l <= Len(Traces[t].ev)
             /\ o' = LedgerStep(o, Traces[t].ev[l])
             /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
PropertyHolds == PROP \notin o.bad
=============================================================================
