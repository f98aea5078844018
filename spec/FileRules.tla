----------------------------- MODULE FileRules -----------------------------
(***************************************************************************)
(* What file readers and writers must do with their file: the observer for *)
(* T03. Units: START, STOP, frame ids (> 0), 0 = anything else.            *)
(* Events                                                                  *)
(*   cfg kind bad lim cfault start stop us end                             *)
(*       kind "w"/"r"; bad: the path cannot be opened; lim: bytes that the *)
(*       device stores at most; cfault: closing it reports an error;       *)
(*       start/stop: sizes of those units; us: whole units in the file to  *)
(*       read, end: what follows them, "eof" or "err" (I/O error)          *)
(*   call op ids n        o open, w write, r read, c close, d destroy; n   *)
(*                        bytes that the frames ids take in the stream     *)
(*   ret res u            res ok/fail/stop, u: frame returned by a read    *)
(*   file us tail cand    what the file holds: whole units, whether more   *)
(*                        bytes follow, and the units these may belong to  *)
(*   fds leak             descriptors still open after the last close      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

STARTu == -2  STOPu == -3
FileInit == [cfg |-> [kind |-> "none"], h |-> "no", op |-> "none", opens |-> FALSE, exp |-> <<>>, size |-> 0,
             final |-> FALSE, touched |-> FALSE, pos |-> 0, bad |-> {}]
Fl(o, cond) == IF cond THEN o ELSE [o EXCEPT !.bad = @ \cup {"T03"}]

OnCall(o, e) ==
    LET opens == \/ e.op = "o" /\ o.h \in {"no", "closed"}
                 \/ e.op \in {"w", "r"} /\ o.h = "no"
        new == (IF opens /\ o.cfg.kind = "w" THEN <<STARTu>> ELSE <<>>)
               \o (IF e.op = "w" /\ (opens \/ o.h = "open") THEN e.ids ELSE <<>>)
               \o (IF e.op \in {"c", "d"} /\ o.h = "open" THEN <<STOPu>> ELSE <<>>)
        n == (IF opens THEN o.cfg.start ELSE 0)
             + (IF e.op = "w" /\ (opens \/ o.h = "open") THEN e.n ELSE 0)
             + (IF e.op \in {"c", "d"} /\ o.h = "open" THEN o.cfg.stop ELSE 0)
    IN IF opens
       THEN [o EXCEPT !.op = e.op, !.opens = TRUE, !.exp = new, !.size = n, !.final = FALSE, !.pos = 1]
       ELSE [o EXCEPT !.op = e.op, !.opens = FALSE, !.exp = @ \o new, !.size = @ + n]

(* A reason to fail before the close: the path, or a device too small.     *)
Cause(o) == o.cfg.bad \/ o.size > o.cfg.lim

(* ---- writers ---------------------------------------------------------- *)
WRet(o, e) ==
    LET ok == e.res = "ok"
    IN CASE o.opens /\ ok -> [Fl(o, ~o.cfg.bad) EXCEPT !.h = "open", !.touched = TRUE]
         [] o.opens /\ ~ok -> IF o.op = "o" THEN [Fl(o, Cause(o)) EXCEPT !.touched = @ \/ ~o.cfg.bad]
                              ELSE IF o.cfg.bad THEN Fl(o, Cause(o))
                              \* did the open or the write fail? not observable if not even START fits
                              ELSE IF o.cfg.lim < o.cfg.start THEN [o EXCEPT !.h = "any", !.touched = FALSE]
                              ELSE [Fl(o, Cause(o)) EXCEPT !.h = "broken", !.touched = TRUE]
         [] ~o.opens /\ o.op = "w" /\ o.h = "open" ->
                IF ok THEN o ELSE [Fl(o, Cause(o)) EXCEPT !.h = "broken"]
         [] o.op = "c" /\ o.h = "open" ->
                IF ok THEN [o EXCEPT !.h = "closed", !.final = TRUE]
                ELSE [Fl(o, Cause(o) \/ o.cfg.cfault) EXCEPT !.h = "closed"]
         [] o.op = "c" /\ o.h = "broken" -> [o EXCEPT !.h = "closed"]
         [] o.op = "d" /\ o.h = "open" -> [o EXCEPT !.h = "gone", !.final = ~Cause(o)]
         [] OTHER -> o

(* What is in the file: always a beginning of the stream, and all of it if *)
(* nothing failed.                                                         *)
OnFile(o, e) ==
    IF ~o.touched THEN o          \* nothing was opened: whatever was there
    ELSE LET n == Len(e.us)
             pre == n <= Len(o.exp) /\ SubSeq(o.exp, 1, n) = e.us
             tl == ~e.tail \/ (pre /\ n < Len(o.exp) /\ \E i \in DOMAIN e.cand : e.cand[i] = o.exp[n + 1])
         IN Fl(o, pre /\ tl /\ (o.final => n = Len(o.exp) /\ ~e.tail))

(* ---- readers ---------------------------------------------------------- *)
Unit(o) == IF o.pos <= Len(o.cfg.us) THEN o.cfg.us[o.pos] ELSE 0
RRead(o, e) ==
    LET u == Unit(o)
    IN CASE u > 0 -> [Fl(o, e.res = "ok" /\ e.u = u) EXCEPT !.pos = @ + 1, !.h = "open"]
         [] u < 0 -> [Fl(o, e.res = "stop") EXCEPT !.h = "ended"]
         [] o.cfg.end = "err" -> [Fl(o, e.res = "fail") EXCEPT !.h = "ended"]
         [] OTHER -> [Fl(o, e.res = "stop") EXCEPT !.h = "ended"]
RRet(o, e) ==
    CASE o.opens ->
             LET can == ~o.cfg.bad /\ o.cfg.us # <<>> /\ o.cfg.us[1] = STARTu
                 o1 == [o EXCEPT !.pos = 2]
             IN IF ~can THEN Fl(o, IF o.cfg.bad \/ o.cfg.end = "err" THEN e.res = "fail" ELSE e.res # "ok")
                ELSE IF o.op = "o" THEN [Fl(o1, e.res = "ok") EXCEPT !.h = "open"]
                ELSE RRead(o1, e)
      [] o.op = "r" /\ o.h = "open" -> RRead(o, e)
      \* after a stream that did not end properly, opening again may work at once
      [] o.op = "o" /\ o.h = "ended" /\ e.res = "ok" -> [o EXCEPT !.h = "open", !.pos = 2]
      [] o.op = "r" -> Fl(o, e.res # "ok")
      [] o.op = "c" /\ o.h \in {"open", "ended"} -> [Fl(o, e.res = "ok" \/ o.h = "ended" \/ o.cfg.cfault) EXCEPT !.h = "closed"]
      [] OTHER -> o

FileStep(o, e) ==
    CASE e.e = "cfg" -> [o EXCEPT !.cfg = e]
      [] e.e = "call" -> OnCall(o, e)
      [] e.e = "ret" -> IF o.cfg.kind = "w" THEN WRet(o, e) ELSE RRet(o, e)
      [] e.e = "file" -> OnFile(o, e)
      [] e.e = "fds" -> Fl(o, e.leak <= 0)
      [] e.e = "init" -> Fl(o, e.ok = e.want)
      [] OTHER -> [o EXCEPT !.bad = @ \cup {"T03"}]
=============================================================================
