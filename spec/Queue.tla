------------------------------- MODULE Queue -------------------------------
(***************************************************************************)
(* The two queue algorithms at the level of single memory accesses: a ring *)
(* with a head written by the inserter and a tail written by the remover.  *)
(* Items take two words, so a torn copy is visible. Model = "SC", "TSO"    *)
(* (x86: FIFO store buffers) or "PSO" (stores to different addresses may   *)
(* be delayed past each other unless a write barrier is in between, as on  *)
(* weaker machines or after compiler reordering). Locked = TRUE is the     *)
(* mutex queue. A call counts as returned once its stores are visible.     *)
(***************************************************************************)
EXTENDS QueueRules, TLC
CONSTANTS Size, NP, NIns, NRem, Model, Locked, Mutation
M(m) == Mutation = m
cfg == [exact |-> Locked, size |-> Size, np |-> NP]
Tasks == 0..NP
Hd == <<"h", 0, 0>>  Tl == <<"t", 0, 0>>  Cell(i, k) == <<"d", i, k>>
Addrs == {Hd, Tl} \cup {Cell(i, k) : i \in 0..(Size-1), k \in 1..2}
Barrier == <<"wmb", 0, 0>>

VARIABLES mem, buf, pc, reg, left, lock, o
vars == <<mem, buf, pc, reg, left, lock, o>>
(* reg[t]: h, t - values read; a, b - words of the item; ok, n - results   *)

Init == /\ mem = [a \in Addrs |-> 0] /\ buf = [t \in Tasks |-> <<>>]
        /\ pc = [t \in Tasks |-> "idle"]
        /\ reg = [t \in Tasks |-> [h |-> 0, t |-> 0, a |-> 0, b |-> 0, ok |-> FALSE, n |-> 0, it |-> 0]]
        /\ left = [t \in Tasks |-> IF t = 0 THEN NRem ELSE NIns]
        /\ lock = -1 /\ o = QInit(cfg)

LastIn(b, a) == LET S == {i \in 1..Len(b) : b[i][1] = a} IN
                IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Read(t, a) == LET i == LastIn(buf[t], a) IN IF i = 0 THEN mem[a] ELSE buf[t][i][2]
Store(t, a, v) == IF Model = "SC" THEN mem' = [mem EXCEPT ![a] = v] /\ UNCHANGED buf
                  ELSE buf' = [buf EXCEPT ![t] = Append(@, <<a, v>>)] /\ UNCHANGED mem
Wmb(t) == IF Model = "PSO" /\ ~M("nowmb") THEN buf' = [buf EXCEPT ![t] = Append(@, <<Barrier, 0>>)] ELSE UNCHANGED buf
Drained(t) == buf[t] = <<>>

(* A buffered store becomes visible. *)
Flush(t) ==
    \E i \in 1..Len(buf[t]) :
        /\ i = 1 \/ Model = "PSO"
        /\ \A j \in 1..(i-1) : buf[t][j][1] # Barrier /\ buf[t][j][1] # buf[t][i][1]
        /\ buf[t][i][1] = Barrier => i = 1
        /\ mem' = IF buf[t][i][1] = Barrier THEN mem ELSE [mem EXCEPT ![buf[t][i][1]] = buf[t][i][2]]
        /\ buf' = [buf EXCEPT ![t] = SubSeq(@, 1, i-1) \o SubSeq(@, i+1, Len(@))]
        /\ UNCHANGED <<pc, reg, left, lock, o>>

Space(h, tl) == (tl - (h + 1)) % Size
Count(h, tl) == (h - tl) % Size
Goto(t, x) == pc' = [pc EXCEPT ![t] = x]
Set(t, f, v) == reg' = [reg EXCEPT ![t][f] = v]
See1(e) == o' = QStep(cfg, o, e)
Takes == IF Locked /\ ~M("nolock") THEN "lock" ELSE "h"

Insert(t) ==
    LET r == reg[t] IN
    \/ /\ pc[t] = "idle" /\ left[t] > 0
       /\ left' = [left EXCEPT ![t] = @ - 1]
       /\ reg' = [reg EXCEPT ![t].it = (t - 1) * NIns + (NIns - left[t] + 1), ![t].ok = FALSE]
       /\ See1([e |-> "i", t |-> t, it |-> (t - 1) * NIns + (NIns - left[t] + 1)])
       /\ Goto(t, Takes) /\ UNCHANGED <<mem, buf, lock>>
    \/ /\ pc[t] = "lock" /\ lock = -1 /\ lock' = t /\ Goto(t, "h") /\ UNCHANGED <<mem, buf, reg, left, o>>
    \/ /\ pc[t] = "h" /\ Set(t, "h", Read(t, Hd)) /\ Goto(t, "t") /\ UNCHANGED <<mem, buf, left, lock, o>>
    \/ /\ pc[t] = "t"
       /\ LET tl == Read(t, Tl)
              sp == Space(r.h, tl)
          IN /\ reg' = [reg EXCEPT ![t].t = tl, ![t].n = IF sp >= 1 THEN sp - 1 ELSE IF M("space0") THEN Size - 1 ELSE 0,
                                   ![t].ok = sp >= 1 \/ M("space0")]
             /\ Goto(t, IF sp >= 1 \/ M("space0") THEN IF M("headfirst") THEN "head" ELSE "a" ELSE "done")
       /\ UNCHANGED <<mem, buf, left, lock, o>>
    \/ /\ pc[t] = "a" /\ Store(t, Cell(r.h, 1), r.it) /\ Goto(t, "b") /\ UNCHANGED <<reg, left, lock, o>>
    \/ /\ pc[t] = "b" /\ Store(t, Cell(r.h, 2), r.it)
       /\ Goto(t, IF M("headfirst") THEN "done" ELSE IF M("earlyunlock") THEN "early" ELSE "wmb") /\ UNCHANGED <<reg, left, lock, o>>
    \/ /\ pc[t] = "early" /\ Drained(t) /\ lock' = -1 /\ Goto(t, "head") /\ UNCHANGED <<mem, buf, reg, left, o>>
    \/ /\ pc[t] = "wmb" /\ Wmb(t) /\ Goto(t, "head") /\ UNCHANGED <<mem, reg, left, lock, o>>
    \/ /\ pc[t] = "head" /\ Store(t, Hd, (r.h + 1) % Size)
       /\ Goto(t, IF M("headfirst") THEN "a" ELSE "done") /\ UNCHANGED <<reg, left, lock, o>>

Remove ==
    LET r == reg[0] IN
    \/ /\ pc[0] = "idle" /\ left[0] > 0
       /\ left' = [left EXCEPT ![0] = @ - 1]
       /\ See1([e |-> "r", t |-> 0])
       /\ reg' = [reg EXCEPT ![0].ok = FALSE]
       /\ Goto(0, Takes) /\ UNCHANGED <<mem, buf, lock>>
    \/ /\ pc[0] = "lock" /\ lock = -1 /\ lock' = 0 /\ Goto(0, "h") /\ UNCHANGED <<mem, buf, reg, left, o>>
    \/ /\ pc[0] = "h" /\ Set(0, "h", Read(0, Hd)) /\ Goto(0, "t") /\ UNCHANGED <<mem, buf, left, lock, o>>
    \/ /\ pc[0] = "t"
       /\ LET tl == Read(0, Tl)
              n == Count(r.h, tl)
          IN /\ reg' = [reg EXCEPT ![0].t = tl, ![0].n = IF n >= 1 THEN IF M("count") THEN n ELSE n - 1 ELSE 0, ![0].ok = n >= 1]
             /\ Goto(0, IF n >= 1 THEN IF M("tailfirst") THEN "tail" ELSE "a" ELSE "done")
       /\ UNCHANGED <<mem, buf, left, lock, o>>
    \/ /\ pc[0] = "a" /\ Set(0, "a", Read(0, Cell(r.t, 1))) /\ Goto(0, "b") /\ UNCHANGED <<mem, buf, left, lock, o>>
    \/ /\ pc[0] = "b" /\ Set(0, "b", Read(0, Cell(r.t, 2))) /\ Goto(0, IF M("tailfirst") THEN "done" ELSE "mb") /\ UNCHANGED <<mem, buf, left, lock, o>>
    \/ /\ pc[0] = "mb" /\ Drained(0) /\ Goto(0, "tail") /\ UNCHANGED <<mem, buf, reg, left, lock, o>>
    \/ /\ pc[0] = "tail" /\ Store(0, Tl, (r.t + 1) % Size)
       /\ Goto(0, IF M("tailfirst") THEN "a" ELSE "done") /\ UNCHANGED <<reg, left, lock, o>>

Finish(t) ==
    LET r == reg[t] IN
    /\ pc[t] = "done" /\ Drained(t)
    /\ lock' = IF lock = t THEN -1 ELSE lock
    /\ See1(IF t = 0 THEN [e |-> "R", t |-> 0, ok |-> r.ok, it |-> IF r.a = r.b THEN r.a ELSE -1, n |-> r.n]
            ELSE [e |-> "I", t |-> t, ok |-> r.ok, it |-> 0, n |-> r.n])
    /\ Goto(t, "idle")
    /\ reg' = [reg EXCEPT ![t] = [h |-> 0, t |-> 0, a |-> 0, b |-> 0, ok |-> FALSE, n |-> 0, it |-> 0]]
    /\ UNCHANGED <<mem, buf, left>>

Next == Remove \/ (\E t \in 1..NP : Insert(t)) \/ \E t \in Tasks : Finish(t) \/ Flush(t)
Spec == Init /\ [][Next]_vars
NoBad == ~o.bad
=============================================================================
