----------------------------- MODULE QueueTrace -----------------------------
(* Recorded executions of the queues, checked against QueueRules. *)
EXTENDS QueueRules, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, o
vars == <<t, l, o>>
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ o = QInit(Traces[t].cfg)
TraceNext == /\ l <= Len(Traces[t].ev)
             /\ o' = QStep(Traces[t].cfg, o, Traces[t].ev[l])
             /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
PropertyHolds == ~o.bad
=============================================================================
