----------------------------- MODULE FileTrace -----------------------------
(* Recorded runs of file readers and writers, checked against FileRules. *)
EXTENDS FileRules, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
PROP == IOEnv.PROP
VARIABLES t, l, o
vars == <<t, l, o>>
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ o = FileInit
TraceNext == /\ l <= Len(Traces[t].ev)
             /\ o' = FileStep(o, Traces[t].ev[l])
             /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
PropertyHolds == PROP \notin o.bad
=============================================================================
