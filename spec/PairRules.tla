----------------------------- MODULE PairRules -----------------------------
(***************************************************************************)
(* What a writer and a reader joined by a faultless byte stream agree on   *)
(* (S03). One or more sessions in a row on the same two handles.           *)
(* cfg = [w, r : content types, bi : BOOLEAN]                              *)
(* Events: sess (a session begins), wo/ro ok (open returned),              *)
(*   wg/rg ok cts (START queried), wcall ids / wret ok, rr res id,         *)
(*   wx (writer's close called), wc/rc ok (close returned), over,          *)
(*   X what (deadlock)                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}
Compatible(cfg) ==
    \/ cfg.w = <<>> \/ cfg.r = <<>>
    \/ IF cfg.bi THEN Range(cfg.w) \cap Range(cfg.r) # {} ELSE cfg.w[1] \in Range(cfg.r)
(* The content type that both must report: the writer's first that the     *)
(* reader takes; none if the writer names none.                            *)
Agreed(cfg) ==
    IF cfg.w = <<>> THEN <<>>
    ELSE IF cfg.r = <<>> \/ ~cfg.bi THEN <<cfg.w[1]>>
    ELSE LET S == {i \in 1..Len(cfg.w) : cfg.w[i] \in Range(cfg.r)}
         IN <<cfg.w[CHOOSE i \in S : \A j \in S : i <= j]>>

Fresh == [wopen |-> "no", ropen |-> "no", offered |-> <<>>, calls |-> 0, taken |-> 0, stopping |-> FALSE, ended |-> FALSE, wc |-> "no", rc |-> "no"]
PairInit == Fresh @@ [bad |-> {}]
Fl(o, cond) == IF cond THEN o ELSE [o EXCEPT !.bad = {"S03"}]
Both(o) == o.wopen # "fail" /\ o.ropen # "fail"

PairStep(cfg, o, e) ==
    LET ok == Compatible(cfg) IN
    CASE e.e = "sess" -> Fresh @@ o
      [] e.e = "wo" -> Fl([o EXCEPT !.wopen = IF e.ok THEN "ok" ELSE "fail"], ok => e.ok)
      [] e.e = "ro" -> Fl([o EXCEPT !.ropen = IF e.ok THEN "ok" ELSE "fail"], e.ok = ok)
      [] e.e \in {"wg", "rg"} -> Fl(o, ok => e.ok /\ e.cts = Agreed(cfg))
      [] e.e = "wcall" -> [o EXCEPT !.offered = @ \o e.ids, !.calls = @ + 1]
      [] e.e = "wret" -> Fl(o, ok => e.ok)
      [] e.e = "wx" -> [o EXCEPT !.stopping = TRUE]
      [] e.e = "rr" ->
           CASE e.res = "ok" -> Fl([o EXCEPT !.taken = @ + 1],
                                   ok /\ ~o.ended /\ o.taken < Len(o.offered) /\ o.offered[o.taken + 1] = e.id)
             [] e.res = "stop" -> Fl([o EXCEPT !.ended = TRUE], ok => o.stopping /\ o.taken = Len(o.offered))
             [] OTHER -> Fl(o, ~ok)
      [] e.e = "wc" -> Fl([o EXCEPT !.wc = IF e.ok THEN "ok" ELSE "fail"], ok => e.ok)
      [] e.e = "rc" -> Fl([o EXCEPT !.rc = IF e.ok THEN "ok" ELSE "fail"], ok => e.ok)
      [] e.e = "over" -> Fl(o, ok => /\ o.wopen = "ok" /\ o.ropen = "ok" /\ o.wc = "ok" /\ o.rc = "ok"
                                     /\ o.taken = Len(o.offered) /\ o.ended)
      [] OTHER -> Fl(o, FALSE)
=============================================================================
