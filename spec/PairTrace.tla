----------------------------- MODULE PairTrace -----------------------------
(* Recorded sessions of a writer and a reader, checked against PairRules. *)
EXTENDS PairRules, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
PROP == IOEnv.PROP
VARIABLES t, l, o
vars == <<t, l, o>>
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ o = PairInit
TraceNext == /\ l <= Len(Traces[t].ev)
             /\ o' = PairStep(Traces[t].cfg, o, Traces[t].ev[l])
             /\ l' = l + 1 /\ t' = t
TraceSpec == TraceInit /\ [][TraceNext]_vars
PropertyHolds == PROP \notin o.bad
=============================================================================
