------------------------------ MODULE IoRules ------------------------------
(***************************************************************************)
(* What a reader or writer handle on one (re-openable) transport must do:  *)
(* the observer for W01-W03, R01-R03, S01, S02 and S04.                    *)
(*                                                                         *)
(* cfg = [role : "w"/"r", bi : BOOLEAN, cts : content types,               *)
(*        max : <<hi,lo>>]   (lengths are pairs of 16-bit halves)          *)
(* Events (all name the handle's transport at the level of whole frames,   *)
(* so how the code splits its reads and writes does not matter):           *)
(*   call op a    a call begins (a: arguments)                             *)
(*   ret  res x   it returns                                               *)
(*   topen/tclose res, tdestroy    transport operations                    *)
(*   w   one frame has been completely handed to the transport             *)
(*   wfail        a transport write failed                                 *)
(*   rh  len      the length word of a data frame has been read            *)
(*   r   one frame of the peer has been completely read                    *)
(*   rfail res    a transport read failed (over: it was for bytes beyond   *)
(*                the end of the frame being read; hdr: but not beyond its *)
(*                first 8 bytes, which any expected control frame has)     *)
(* Frames: k = "ctl" with payload p, "data" with id (and len), "junk".     *)
(***************************************************************************)
EXTENDS Control

NoCt == <<>>           \* "not exchanged" in sess
Kinds == {"ready", "accept", "start", "stop", "finish"}
KindOf(t) == CASE t = READY -> "ready" [] t = ACCEPT -> "accept" [] t = START -> "start"
               [] t = STOP -> "stop" [] t = FINISH -> "finish"

IoInit ==
    [h |-> "fresh",          \* fresh open ended closed failed gone
     tr |-> FALSE,           \* transport open
     wire |-> "none",        \* progress on this connection, see below
     wf |-> FALSE,           \* a transport write failed on this connection
     call |-> "none", arg |-> <<>>,
     touched |-> FALSE,      \* transport used by this call
     ocall |-> FALSE,        \* transport open attempted by this call
     err |-> FALSE,          \* this call met a transport error or bad input
     pend |-> <<>>,          \* frames that the current write call still owes
     got |-> <<>>,           \* frames of the data section read by this call
     big |-> FALSE,          \* this call met an oversized data frame
     cres |-> "none",        \* result of the transport close in this call
     fin |-> FALSE,          \* STOP (writer) / FINISH (reader) was written by this call
     sess |-> [k \in Kinds |-> NoCt], ever |-> {},
     dead |-> 0,             \* transport destroyed
     bad |-> {}]

(* wire: none -> ready -> accepted|refused -> started -> stopped -> finished (writer)
         none -> ready -> accepted -> started (reader), refused: bad handshake    *)

OKres(e) == e.res = "ok"
Fl(o, p, cond) == IF cond THEN o ELSE [o EXCEPT !.bad = @ \cup {p}]
FlAll(o, ps, cond) == IF cond THEN o ELSE [o EXCEPT !.bad = @ \cup ps]
LE(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Touch(o) == [o EXCEPT !.touched = TRUE]
Sess(o, t, cs) == [o EXCEPT !.sess[KindOf(t)] = <<cs>>, !.ever = @ \cup {KindOf(t)}]

(* Index of the first own content type that the frame matches, 0 if none. *)
FirstMatch(cfg, type, cts) ==
    LET S == {i \in 1..Len(cfg.cts) : Matches(type, cts, <<cfg.cts[i]>>)}
    IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Acceptable(cfg, type, cts) == cfg.cts = <<>> \/ FirstMatch(cfg, type, cts) # 0
Head1(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>>
OwnMatching(cfg, cts) ==   \* own content types that a READY with cts matches
    LET Keep(i) == Matches(READY, cts, <<cfg.cts[i]>>)
        L[i \in 0..Len(cfg.cts)] == IF i = 0 THEN <<>> ELSE IF Keep(i) THEN Append(L[i-1], cfg.cts[i]) ELSE L[i-1]
    IN L[Len(cfg.cts)]
TooLong(cs) == PayloadLen(cs) > MaxPayload

---------------------------------------------------------------------------
Closing(o) == o.call \in {"close", "destroy"}
Valid(cfg, a) == \A i \in 1..Len(a) : a[i] > 0     \* ids of inexpressible frames are negative

OnCall(cfg, o, e) ==
    [o EXCEPT !.call = e.op, !.arg = e.a, !.touched = FALSE, !.ocall = FALSE, !.err = FALSE,
              !.big = FALSE, !.got = <<>>, !.cres = "none", !.fin = FALSE,
              !.pend = IF e.op = "write" /\ Valid(cfg, e.a) THEN e.a ELSE <<>>]

OnTopen(cfg, o, e) ==
    LET o1 == Fl(Touch(o), "S01", ~o.tr)
        o2 == Fl(o1, "S02", /\ o.h \notin {"ended"} /\ ~(o.h = "open" /\ cfg.role = "r")
                            /\ o.call # "open" => o.h = "fresh")
    IN IF OKres(e)
       THEN [o2 EXCEPT !.tr = TRUE, !.wire = "none", !.wf = FALSE, !.ocall = TRUE,
                       !.sess = [k \in Kinds |-> NoCt]]
       ELSE [o2 EXCEPT !.err = TRUE, !.ocall = TRUE, !.wire = IF o.tr THEN @ ELSE "none"]

OnTclose(cfg, o, e) ==
    LET o1 == Fl(Touch(o), "S01", o.tr) IN [o1 EXCEPT !.tr = FALSE, !.cres = e.res]
OnTdestroy(cfg, o, e) ==
    LET o1 == Fl(Touch(o), "S01", ~o.tr /\ o.dead = 0 /\ o.call = "destroy") IN [o1 EXCEPT !.dead = 1]

---------------------------------------------------------------------------
(* Frames written. *)
WriterCtl(cfg, o, d) ==
    CASE ~d.ok -> Fl(o, "W01", FALSE)
      [] d.ok /\ d.type = READY ->
           LET o1 == Fl(o, "W01", cfg.bi /\ o.wire = "none" /\ o.ocall)
               o2 == Fl(o1, "W03", d.cts = cfg.cts)
           IN Sess([o2 EXCEPT !.wire = "ready"], READY, d.cts)
      [] d.ok /\ d.type = START ->
           LET o1 == Fl(o, "W01", o.ocall /\ IF cfg.bi THEN o.wire \in {"accepted", "refused"} ELSE o.wire = "none")
               o2 == Fl(o1, "W03", IF cfg.bi
                        THEN o.wire = "accepted"
                             /\ d.cts = IF cfg.cts = <<>> THEN <<>>
                                        ELSE <<cfg.cts[FirstMatch(cfg, ACCEPT, o.sess["accept"][1])]>>
                        ELSE d.cts = Head1(cfg.cts))
           IN Sess([o2 EXCEPT !.wire = "started"], START, d.cts)
      [] d.ok /\ d.type = STOP ->
           LET o1 == Fl(o, "W01", o.wire = "started" /\ Closing(o) /\ o.h = "open")
           IN Sess([o1 EXCEPT !.wire = "stopped", !.fin = TRUE], STOP, <<>>)
      [] OTHER -> Fl(o, "W01", FALSE)

WriterData(cfg, o, e) ==
    LET o1 == Fl(o, "W01", o.wire = "started")
        o2 == Fl(o1, "W02", o.call = "write" /\ o.pend # <<>> /\ Head(o.pend) = e.id)
    IN [o2 EXCEPT !.pend = IF @ = <<>> THEN @ ELSE Tail(@)]

ReaderCtl(cfg, o, d) ==
    CASE d.ok /\ d.type = ACCEPT ->
           LET o1 == Fl(o, "R03", cfg.bi /\ o.wire = "ready" /\ o.sess["ready"] # NoCt
                                  /\ d.cts = OwnMatching(cfg, o.sess["ready"][1]))
           IN Sess([o1 EXCEPT !.wire = "accepted"], ACCEPT, d.cts)
      [] d.ok /\ d.type = FINISH ->
           LET o1 == Fl(o, "R03", cfg.bi /\ Closing(o) /\ o.h \in {"open", "ended"} /\ ~o.fin)
           IN Sess([o1 EXCEPT !.fin = TRUE, !.wire = "finished"], FINISH, <<>>)
      [] OTHER -> Fl(o, "R03", FALSE)

OnW(cfg, o, e) ==
    LET o1 == Fl(Touch(o), "S01", o.tr)
        o2 == IF cfg.role = "w" THEN Fl(o1, "W01", ~o.wf) ELSE o1
    IN IF cfg.role = "w"
       THEN IF e.k = "ctl" THEN WriterCtl(cfg, o2, DecodePayload(e.p))
            ELSE IF e.k = "data" THEN WriterData(cfg, o2, e)
            ELSE Fl(o2, "W01", FALSE)
       ELSE IF e.k = "ctl" THEN ReaderCtl(cfg, o2, DecodePayload(e.p)) ELSE Fl(o2, "R03", FALSE)

OnWfail(cfg, o, e) == [Fl(Touch(o), "S01", o.tr) EXCEPT !.wf = TRUE, !.err = TRUE]

---------------------------------------------------------------------------
(* Frames read. *)
Expecting(cfg, o) ==
    IF cfg.role = "w" THEN cfg.bi /\ o.wire \in {"ready", "stopped"}
    ELSE \/ o.wire = "none" \/ o.wire = "accepted"
         \/ o.wire = "started" /\ o.call = "read"

OnRfail(cfg, o, e) ==
    LET o1 == Fl(Touch(o), "S01", o.tr)
    IN IF Expecting(cfg, o) /\ (~e.over \/ (e.hdr /\ ~(cfg.role = "r" /\ o.wire = "started"))) THEN [o1 EXCEPT !.err = TRUE] ELSE o1

Refuse(o) == [o EXCEPT !.wire = "refused", !.err = TRUE]
WriterR(cfg, o, e) ==
    LET d == IF e.k = "ctl" THEN DecodePayload(e.p) ELSE Bad
    IN IF o.wire = "ready"
       THEN IF d.ok /\ d.type = ACCEPT
            THEN Sess(IF Acceptable(cfg, ACCEPT, d.cts) THEN [o EXCEPT !.wire = "accepted"] ELSE Refuse(o),
                      ACCEPT, d.cts)
            ELSE Refuse(o)
       ELSE IF o.wire = "stopped"
       THEN IF d.ok /\ d.type = FINISH THEN Sess([o EXCEPT !.wire = "finished"], FINISH, <<>>)
            ELSE [o EXCEPT !.err = TRUE]
       ELSE o

UnknownType(p) == Len(p) >= WordLen /\ Len(p) <= MaxPayload /\ Word(p, 1) \notin Types
ReaderR(cfg, o, e) ==
    LET d == IF e.k = "ctl" THEN DecodePayload(e.p) ELSE Bad
        want == IF o.wire = "none" /\ cfg.bi THEN READY ELSE START
    IN IF o.wire \in {"none", "accepted"}
       THEN IF ~(d.ok /\ d.type = want) THEN Refuse(o)
            ELSE IF want = READY THEN Sess([o EXCEPT !.wire = "ready"], READY, d.cts)
            ELSE IF Acceptable(cfg, START, d.cts) THEN Sess([o EXCEPT !.wire = "started"], START, d.cts)
            ELSE Refuse(o)
       ELSE IF o.wire = "started"
       THEN LET c == IF e.k = "data" THEN [k |-> "data", id |-> e.id, len |-> e.len]
                     ELSE IF e.k = "junk" THEN [k |-> "bad", id |-> 0, len |-> <<0, 0>>]
                     ELSE [k |-> IF UnknownType(e.p) THEN "skip"
                                 ELSE IF ~d.ok THEN "bad"
                                 ELSE IF d.type = STOP THEN "stop" ELSE "odd", id |-> 0, len |-> <<0, 0>>]
            IN [(IF c.k = "stop" THEN Sess(o, STOP, <<>>) ELSE o) EXCEPT !.got = Append(@, c)]
       ELSE Refuse(o)

OnR(cfg, o, e) ==
    LET o1 == Fl(Touch(o), "S01", o.tr) IN IF cfg.role = "w" THEN WriterR(cfg, o1, e) ELSE ReaderR(cfg, o1, e)
OnRh(cfg, o, e) ==
    LET o1 == Fl(Touch(o), "S01", o.tr)
    IN IF cfg.role = "w" THEN Refuse(o1)
       ELSE IF o.wire = "started" THEN [o1 EXCEPT !.big = @ \/ ~LE(e.len, cfg.max)]
       ELSE Refuse(o1)

---------------------------------------------------------------------------
(* Returns. *)
Clear(o) == [o EXCEPT !.call = "none"]

(* An open (explicit or implicit) was due: what must hold when it is over. *)
HsProp(cfg) == IF cfg.role = "w" THEN "W03" ELSE "R03"
HsExcuse(cfg, o) == \/ o.err \/ o.wire = "refused"
                    \/ cfg.role = "w" /\ cfg.bi /\ TooLong(cfg.cts)
                    \/ cfg.role = "r" /\ o.wire = "ready" /\ TooLong(OwnMatching(cfg, o.sess["ready"][1]))
AfterOpen(cfg, o, ok) ==
    LET o1 == Fl(o, "S02", o.ocall)
    IN IF ok
       THEN Fl(Fl(o1, HsProp(cfg), o.wire = "started"), "S01", o.tr)
       ELSE LET o2 == Fl(o1, HsProp(cfg), HsExcuse(cfg, o)) IN Fl(o2, "S01", ~o.tr)

RetOpen(cfg, o, e) ==
    IF cfg.role = "r" /\ o.h \in {"open", "ended"}
    THEN Fl(o, "S02", ~OKres(e) /\ ~o.touched)
    ELSE IF cfg.role = "w" /\ o.h = "open" THEN o
    ELSE LET o1 == AfterOpen(cfg, o, OKres(e)) IN IF OKres(e) THEN [o1 EXCEPT !.h = "open"] ELSE o1

RetWrite(cfg, o, e) ==
    LET valid == Valid(cfg, o.arg)
        implicit == o.h = "fresh"
        opened == implicit /\ o.wire = "started" /\ o.tr
        hsfailed == implicit /\ o.wire # "started"
        o1 == IF implicit /\ valid THEN
                 IF hsfailed THEN AfterOpen(cfg, o, FALSE)
                 ELSE Fl(o, "S02", o.ocall)
              ELSE o
        o2 == IF implicit /\ o.wire = "started" THEN [o1 EXCEPT !.h = "open"] ELSE o1
        o3 == IF OKres(e)
              THEN Fl(Fl(o2, "W02", valid /\ o.pend = <<>> /\ ~o.wf), "W03", o.wire = "started")
              ELSE \* only a cause justifies a refusal, and a failed transport is closed
                   Fl(Fl(o2, "W02", ~valid \/ o.err \/ o.wf \/ o.h \notin {"fresh", "open"} \/ hsfailed),
                      "S01", o.err => ~o.tr)
    IN IF o.h \in {"closed"} THEN Fl(o3, "S02", ~OKres(e) /\ ~o.touched) ELSE o3

Query(cfg, a) ==
    LET t == a[1] IN
    IF cfg.role = "w" THEN t \in {ACCEPT, START, READY, FINISH} ELSE t \in {ACCEPT, START, READY, STOP}
RetGet(cfg, o, e) ==
    LET implicit == o.h = "fresh"
        hsok == ~implicit \/ o.wire = "started"
        o1 == IF implicit THEN AfterOpen(cfg, o, o.wire = "started") ELSE o
        o2 == IF implicit /\ o.wire = "started" THEN [o1 EXCEPT !.h = "open"] ELSE o1
        t == o.arg[1]
        cur == o2.wire \in {"started", "stopped", "finished"}    \* the latest open succeeded
        has == Query(cfg, o.arg) /\ o.sess[KindOf(t)] # NoCt
        never == ~Query(cfg, o.arg) \/ KindOf(t) \notin o.ever
    IN IF ~hsok THEN Fl(o2, "S04", ~OKres(e))
       ELSE Fl(Fl(o2, "S04", never => ~OKres(e)),
               "S04", cur => /\ OKres(e) = has
                             /\ OKres(e) => e.type = t /\ e.cts = o.sess[KindOf(t)][1])

CloseOk(cfg, o) ==
    /\ o.h \in {"open", "ended"} /\ o.cres = "ok"
    /\ IF cfg.role = "w" THEN o.fin /\ ~o.wf /\ (cfg.bi => o.wire = "finished")
       ELSE cfg.bi => o.fin /\ ~o.wf
RetClose(cfg, o, e) ==
    IF o.h \notin {"open", "ended"}
    THEN Fl(o, "S02", ~OKres(e) /\ ~o.touched)
    ELSE LET o1 == Fl(Fl(o, "S04", OKres(e) = CloseOk(cfg, o)), "S01", ~o.tr)
             \* it must have tried: STOP / FINISH was written unless the transport failed
             o2 == Fl(o1, "S04", (cfg.role = "w" \/ cfg.bi) => o.fin \/ o.wf)
             o3 == Fl(o2, "S04", (cfg.role = "w" /\ cfg.bi) => o.wire = "finished" \/ o.err \/ o.wf)
         IN [o3 EXCEPT !.h = "closed"]
RetDestroy(cfg, o, e) ==
    LET o1 == Fl(o, "S01", ~o.tr /\ o.dead = 1)
        o2 == IF o.h \in {"open", "ended"} /\ (cfg.role = "w" \/ cfg.bi) THEN Fl(o1, "S04", o.fin \/ o.wf) ELSE o1
        o3 == IF o.h = "open" /\ cfg.role = "w" /\ cfg.bi
              THEN Fl(o2, "S04", o.wire = "finished" \/ o.err \/ o.wf) ELSE o2
    IN [o3 EXCEPT !.h = "gone"]

(* e.id: the delivered frame (as recognised by its bytes; -1: not a frame  *)
(* of the script), e.len its length.                                       *)
Skippable(g) == g.k \in {"skip", "odd"}
ReadOk(cfg, o, e) ==
    LET n == Len(o.got) IN
    IF n = 0 THEN Fl(o, IF o.big \/ o.err THEN "R02" ELSE "R01", FALSE)
    ELSE LET g == o.got[n]
             o1 == Fl(o, "R02", /\ \A i \in 1..n : o.got[i].k # "bad"
                                /\ ~o.err /\ ~o.big
                                /\ g.k = "data" => LE(g.len, cfg.max))
         IN Fl(o1, "R01", /\ g.k = "data" /\ g.id = e.id /\ g.len = e.len
                          /\ \A i \in 1..(n-1) : Skippable(o.got[i]))
ReadNotOk(cfg, o, impl, e) ==     \* impl: this call opened the reader
    LET n == Len(o.got)
        atstop == n > 0 /\ o.got[n].k = "stop" /\ ~o.err
        lost == \E i \in 1..n : o.got[i].k = "data" /\ LE(o.got[i].len, cfg.max)
        badin == o.big \/ o.err \/ \E i \in 1..n : o.got[i].k \in {"bad", "odd"} \/ ~LE(o.got[i].len, cfg.max)
        o1 == Fl(o, "R01", ~lost)
    IN IF atstop
       THEN [Fl(o1, "R01", e.res = "stop" /\ \A i \in 1..(n-1) : Skippable(o.got[i])) EXCEPT !.h = "ended"]
       ELSE LET o2 == FlAll(o1, {"R01", "R02"} \cup (IF impl THEN {"R03"} ELSE {}), badin)
                o3 == Fl(o2, "R01", e.res = "stop" => o.err)     \* end of stream only if the transport ended
                o4 == Fl(o3, "S01", ~o.tr)
            IN [o4 EXCEPT !.h = "failed"]

RetRead(cfg, o, e) ==
    CASE o.h = "closed" -> Fl(o, "S02", e.res = "stop" /\ ~o.touched)
      [] o.h = "ended"  -> Fl(Fl(o, "R01", ~OKres(e)), "S02", ~OKres(e) /\ ~o.touched)
      [] o.h = "failed" -> Fl(Fl(o, "R02", ~OKres(e)), "S02", ~OKres(e) /\ ~o.touched)
      [] o.h = "fresh" /\ o.wire # "started" ->
            Fl(AfterOpen(cfg, o, FALSE), "R03", ~OKres(e))
      [] OTHER ->
            LET o1 == IF o.h = "fresh" THEN [Fl(o, "S02", o.ocall) EXCEPT !.h = "open"] ELSE o
            IN IF OKres(e) THEN ReadOk(cfg, o1, e) ELSE ReadNotOk(cfg, o1, o.h = "fresh", e)

OnRet(cfg, o, e) ==
    Clear(CASE o.call = "open" -> RetOpen(cfg, o, e)
            [] o.call = "write" -> RetWrite(cfg, o, e)
            [] o.call = "get" -> RetGet(cfg, o, e)
            [] o.call = "close" -> RetClose(cfg, o, e)
            [] o.call = "read" -> RetRead(cfg, o, e)
            [] o.call = "destroy" -> RetDestroy(cfg, o, e))

IoStep(cfg, o, e) ==
    CASE e.e = "call" -> OnCall(cfg, o, e)
      [] e.e = "ret" -> OnRet(cfg, o, e)
      [] e.e = "topen" -> OnTopen(cfg, o, e)
      [] e.e = "tclose" -> OnTclose(cfg, o, e)
      [] e.e = "tdestroy" -> OnTdestroy(cfg, o, e)
      [] e.e = "w" -> OnW(cfg, o, e)
      [] e.e = "wfail" -> OnWfail(cfg, o, e)
      [] e.e = "r" -> OnR(cfg, o, e)
      [] e.e = "rh" -> OnRh(cfg, o, e)
      [] e.e = "rfail" -> OnRfail(cfg, o, e)
      [] e.e = "touch" -> Fl(Touch(o), "S01", o.tr)   \* part of a frame, or nothing, moved

RECURSIVE IoSteps(_, _, _)
IoSteps(cfg, o, es) == IF es = <<>> THEN o ELSE IoSteps(cfg, IoStep(cfg, o, Head(es)), Tail(es))
=============================================================================
