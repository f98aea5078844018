----------------------------- MODULE QueueRules -----------------------------
(***************************************************************************)
(* What a bounded FIFO must look like to its callers (Q01, Q02): the       *)
(* history of calls and returns must be explained by operations that each  *)
(* take effect atomically at one moment between call and return. The       *)
(* observer keeps the set of all explanations that are still possible.     *)
(*                                                                         *)
(* cfg = [exact : BOOLEAN,  - the reported space/count must be that of the *)
(*                            moment of effect (locked queue), or of any   *)
(*                            moment of the call (lock-free queue)         *)
(*        size : Nat, np : number of producers]                            *)
(* Task 0 removes, tasks 1..np insert. Events:                             *)
(*   i t item / I t ok n      insert begins / returns (n = -1: not asked)  *)
(*   r / R ok item n          remove begins / returns                      *)
(*   X                        memory error, hang or leak                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Idle == [op |-> "none", it |-> 0, lin |-> FALSE, ok |-> FALSE, out |-> 0, pre |-> {}, post |-> {}]
QInit(cfg) == [cs |-> {[q |-> <<>>, p |-> [t \in 0..cfg.np |-> Idle]]}, bad |-> FALSE]

(* Every pending call sees the current length. *)
See(cfg, c) ==
    IF cfg.exact THEN c
    ELSE [c EXCEPT !.p = [t \in DOMAIN c.p |->
            IF c.p[t].op = "none" THEN c.p[t]
            ELSE IF c.p[t].lin /\ c.p[t].ok THEN [c.p[t] EXCEPT !.post = @ \cup {Len(c.q)}]
            ELSE [c.p[t] EXCEPT !.pre = @ \cup {Len(c.q)}]]]

Begin(cfg, c, t, op, it) ==
    See(cfg, [c EXCEPT !.p[t] = [Idle EXCEPT !.op = op, !.it = it]])

(* The pending call of t takes effect. *)
Effect(cfg, c, t) ==
    LET d == c.p[t]
        seen == [d EXCEPT !.lin = TRUE, !.pre = IF cfg.exact THEN {Len(c.q)} ELSE @ \cup {Len(c.q)}]
    IN IF d.op = "ins"
       THEN IF Len(c.q) < cfg.size - 1
            THEN See(cfg, [c EXCEPT !.p[t] = [seen EXCEPT !.ok = TRUE], !.q = Append(@, d.it)])
            ELSE [c EXCEPT !.p[t] = seen]
       ELSE IF c.q # <<>>
            THEN See(cfg, [c EXCEPT !.p[t] = [seen EXCEPT !.ok = TRUE, !.out = Head(c.q)], !.q = Tail(@)])
            ELSE [c EXCEPT !.p[t] = seen]

Pending(c) == {t \in DOMAIN c.p : c.p[t].op # "none" /\ ~c.p[t].lin}
RECURSIVE Closure(_, _)
Closure(cfg, S) ==
    LET N == S \cup UNION {{Effect(cfg, c, t) : t \in Pending(c)} : c \in S}
    IN IF N = S THEN S ELSE Closure(cfg, N)

Monus1(n) == IF n > 0 THEN n - 1 ELSE 0
Spaces(cfg, d) == IF d.ok THEN {cfg.size - 1 - (n + 1) : n \in d.pre} \cup {cfg.size - 1 - n : n \in d.post}
                  ELSE {cfg.size - 1 - n : n \in d.pre}
Counts(d) == IF d.ok THEN {Monus1(n) : n \in d.pre} \cup d.post ELSE d.pre

Returned(cfg, c, t, e) ==
    LET d == c.p[t]
    IN /\ d.lin /\ d.ok = e.ok
       /\ IF d.op = "ins" THEN e.n = -1 \/ e.n \in Spaces(cfg, d)
          ELSE (e.ok => d.out = e.it) /\ (e.n = -1 \/ e.n \in Counts(d))

QStep(cfg, o, e) ==
    CASE e.e = "i" -> [o EXCEPT !.cs = {Begin(cfg, c, e.t, "ins", e.it) : c \in @}]
      [] e.e = "r" -> [o EXCEPT !.cs = {Begin(cfg, c, e.t, "rem", 0) : c \in @}]
      [] e.e \in {"I", "R"} ->
            \* effects are only materialised when a return needs them
            LET S == {[c EXCEPT !.p[e.t] = Idle] : c \in {x \in Closure(cfg, o.cs) : Returned(cfg, x, e.t, e)}}
            IN [cs |-> S, bad |-> o.bad \/ S = {}]
      [] e.e = "N" -> [o EXCEPT !.bad = @ \/ (e.ok # (cfg.size \in {2^k : k \in 1..20}))]
      [] OTHER -> [o EXCEPT !.bad = TRUE]
=============================================================================
