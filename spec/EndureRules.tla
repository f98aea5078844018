---------------------------- MODULE EndureRules -----------------------------
(***************************************************************************)
(* What the programs may hold on to (P07). fstrm_capture: at every moment  *)
(* at which it has nothing left to do, its open descriptors and memory are *)
(* bounded by what it held at the start and the clients that are connected *)
(* then; and when a round of events is repeated, no round leaves more than *)
(* the second one did. fstrm_replay, fstrm_dump: what they hold in the end *)
(* does not depend on how many inputs or frames they had.                  *)
(*   cfg slack per   bytes allowed on top of the start, and per client     *)
(*   rest fds mem live   descriptors, bytes; clients connected             *)
(*   round n fds mem     the end of the n-th round: no clients             *)
(*   ended n fds mem     a whole run with n inputs (or frames)             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == [fds |-> -1, mem |-> 0]
EndInit == [slack |-> 0, per |-> 0, base |-> None, mark |-> None, last |-> None, n |-> 0, bad |-> {}]
F(o, cond) == IF cond THEN o ELSE [o EXCEPT !.bad = {"P07"}]
M(e) == [fds |-> e.fds, mem |-> e.mem]
EndStep(o, e) ==
    CASE e.e = "cfg" -> [o EXCEPT !.slack = e.slack, !.per = e.per]
      [] e.e = "rest" ->
            IF o.base = None THEN F([o EXCEPT !.base = M(e)], e.live = 0)
            ELSE F(o, e.fds <= o.base.fds + e.live /\ e.mem <= o.base.mem + o.slack + e.live * o.per)
      [] e.e = "round" ->
            LET p == [o EXCEPT !.mark = IF e.n = 2 THEN M(e) ELSE @]
            IN F(p, e.n > 2 => e.fds <= o.mark.fds /\ e.mem <= o.mark.mem)
      [] e.e = "ended" ->
            LET p == [o EXCEPT !.last = M(e), !.n = e.n]
            IN F(p, o.last = None \/ (e.fds <= o.last.fds /\ e.mem <= o.last.mem + o.slack + o.per * (e.n - o.n)))
      [] OTHER -> F(o, FALSE)
=============================================================================
