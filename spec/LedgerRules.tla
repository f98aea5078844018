---------------------------- MODULE LedgerRules ----------------------------
(***************************************************************************)
(* What handles do with memory: the observer for M01. The books show how   *)
(* many pieces of memory the library holds.                                *)
(* Events                                                                  *)
(*   new k live      an object of kind k was created (live: pieces held)   *)
(*   refuse k live   creating it was refused                               *)
(*   call live       a call has returned                                   *)
(*   mark live       one more of a series of identical rounds is complete  *)
(*   gone k null live   the object was destroyed; null: the caller's       *)
(*                   pointer is NULL now                                   *)
(*   again live      it was destroyed once more, through the NULL pointer  *)
(*   end live        every object is destroyed                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences
LedgerInit == [objs |-> 0, live |-> 0, marks |-> <<>>, last |-> "none", bad |-> {}]
LFlag(o, ok) == IF ok THEN o ELSE [o EXCEPT !.bad = @ \cup {"M01"}]
LedgerStep(o, e) ==
    LET n == [o EXCEPT !.live = e.live, !.last = e.e] IN
    CASE e.e = "new" -> [LFlag(n, e.live > o.live) EXCEPT !.objs = @ + 1]
      [] e.e = "refuse" -> LFlag(n, e.live <= o.live)
      [] e.e = "call" -> n
      [] e.e = "mark" -> \* the first round may set up what later ones use again
           [LFlag(n, Len(o.marks) >= 2 => e.live <= o.marks[2]) EXCEPT !.marks = Append(@, e.live)]
      [] e.e = "gone" -> [LFlag(n, e.null /\ e.live < o.live /\ (o.objs = 1 => e.live = 0)) EXCEPT !.objs = @ - 1]
      [] e.e = "again" -> LFlag(n, o.last \in {"gone", "again"} /\ e.live = o.live)
      [] e.e = "end" -> LFlag(n, o.objs = 0 /\ e.live = 0)
      [] OTHER -> LFlag(n, FALSE)
=============================================================================
