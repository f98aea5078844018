----------------------------- MODULE IothrRules -----------------------------
(***************************************************************************)
(* What users of the I/O thread may rely on (I01-I07), as an observer of   *)
(* the calls made, the release callbacks and the transport operations.     *)
(* Times are milliseconds of a virtual clock. bad collects the properties  *)
(* that do not hold.                                                       *)
(*                                                                         *)
(* cfg = [oq, bh, ft, iq, nq, ri, bi, t0]: output queue size (capped),     *)
(*   buffer hint, flush timeout (s), input queue size, number of queues,   *)
(*   reopen interval (s), bi-directional transport, time of creation       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

All == {"I01", "I02", "I03", "I04", "I05", "I06", "I07"}
START == 2  STOP == 3
Success == 0  Failure == 1  Again == 2  Invalid == 3
MaxOf(a, b) == IF a > b THEN a ELSE b
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

IothrInit(cfg) ==
   [n |-> 0, t |-> cfg.t0,
    fr |-> <<>>,           \* frames submitted and not finished
    done |-> {},           \* released frames (and refused ones)
    wrote |-> {}, taint |-> {}, batch |-> {},
    mw |-> <<>>,           \* per queue: latest call among its written frames
    conn |-> "none",       \* none, open, failed, stopped
    openT |-> 0, openN |-> 0,
    tr |-> FALSE, opening |-> FALSE, att |-> -1, fail |-> cfg.t0,
    stall |-> FALSE, sq |-> <<>>,   \* per queue: accepted while the I/O thread was held up
    blk |-> 0, bt |-> 0,
    finish |-> FALSE, fin |-> FALSE, rx |-> FALSE, td |-> 0,
    down |-> FALSE, dn |-> 0, gone |-> FALSE,
    gx |-> <<>>, handed |-> <<>>, gp |-> 0, gcalls |-> 0,
    bad |-> {}]

F(o, ps, cond) == IF cond THEN o ELSE [o EXCEPT !.bad = @ \cup ps]

(* --- deadlines: looked at whenever time has passed --- *)
RetryBy(cfg, o) == MaxOf(o.att + cfg.ri * 1000, o.fail) + cfg.ft * 1000 + 1
Late(cfg, o, T) ==
    {i \in DOMAIN o.fr : LET f == o.fr[i] IN
        \* (one without callback accepted before the stream may have been discarded unseen)
        f.st = "a" /\ i \notin o.wrote /\ (f.kind = 1 \/ f.call > o.openN) /\ T > MaxOf(f.rt, o.openT) + 2000 * cfg.ft + 1 + (o.blk - MaxOf(f.bk, 0))}
Overdue(cfg, o, T) ==
    IF T = o.t \/ o.gone THEN o
    ELSE LET o1 == F(o, {"I04"}, o.conn = "open" /\ ~o.stall /\ ~o.down => Late(cfg, o, T) = {})
         IN F(o1, {"I03"}, o.conn # "open" /\ ~o.down /\ ~o.opening /\ ~o.tr => T <= (IF o.att < 0 THEN cfg.t0 ELSE RetryBy(cfg, o)))

(* --- the I/O thread is inside the transport: nothing leaves the queues --- *)
StallOn(o) == [o EXCEPT !.stall = TRUE, !.sq = <<>>]
StallOff(o) == [o EXCEPT !.stall = FALSE, !.sq = <<>>, !.fr = [i \in DOMAIN @ |-> [@[i] EXCEPT !.lo = 0, !.stl = FALSE]]]

InQueue(o, q) == {i \in DOMAIN o.fr : o.fr[i].q = q /\ o.fr[i].kind # 0 /\ i \notin o.wrote}

SubmitCall(cfg, o, e) ==
    LET f == [q |-> e.q, call |-> o.n, ct |-> e.t, ret |-> 0, rt |-> 0, st |-> "p", kind |-> e.kind, bk |-> 0,
              lo |-> IF o.stall THEN Get(o.sq, e.q, 0) ELSE 0, stl |-> o.stall, hi |-> Cardinality(InQueue(o, e.q))]
        fr1 == IF e.kind = 0 THEN o.fr
               ELSE [i \in DOMAIN o.fr |-> IF o.fr[i].q = e.q /\ o.fr[i].st = "p" THEN [o.fr[i] EXCEPT !.hi = @ + 1] ELSE o.fr[i]]
    IN [o EXCEPT !.fr = Set(fr1, e.id, f)]

SubmitRet(cfg, o, e) ==
    LET f == o.fr[e.id]
        o1 == F(o, {"I06"}, e.t = f.ct)
        used == e.id \in o.wrote \/ e.id \in o.done
    IN IF f.kind = 0
       THEN F([o1 EXCEPT !.fr = Drop(@, e.id), !.done = @ \cup {e.id}], {"I06"}, e.res = Invalid \/ (e.res = Failure /\ o.down))
       ELSE IF e.res = Success
       THEN LET o2 == F(o1, {"I06", "I07"}, f.lo < cfg.iq - 1)
                g == [f EXCEPT !.st = "a", !.ret = o.n, !.rt = e.t, !.bk = o.blk]
            IN [o2 EXCEPT !.fr = IF used /\ e.id \in o.done THEN Drop(@, e.id) ELSE Set(@, e.id, g),
                          !.sq = IF o.stall /\ f.stl THEN Set(@, f.q, Get(@, f.q, 0) + 1) ELSE @]
       ELSE LET o2 == F(o1, {"I06"}, e.res \in {Again, Failure})
                o3 == F(o2, {"I06", "I07"}, e.res = Again => f.hi >= cfg.iq - 1)
                o4 == F(o3, {"I06", "I05"}, e.res = Failure => o.down)
                o5 == F(o4, {"I01", "I05", "I06"}, e.id \notin o.done)
                o6 == F(o5, {"I02", "I06"}, e.id \notin o.wrote)
            IN [o6 EXCEPT !.fr = Drop(@, e.id), !.done = @ \cup {e.id}]

Released(cfg, o, e) ==
    IF ~e.ok \/ e.id \in o.done \/ e.id \notin DOMAIN o.fr THEN F(o, {"I01"}, FALSE)
    ELSE LET f == o.fr[e.id]
             lost == e.id \notin o.wrote
             late == f.st = "p" \/ (o.down /\ f.ret > o.dn)     \* accepted only after destroy was called
             o1 == F(o, {"I02", "I05"}, ~(lost /\ o.conn = "open" /\ ~late))
             o2 == F(o1, {"I02", "I05"}, ~(lost /\ o.conn = "stopped" /\ ~late))
             o3 == F(o2, {"I03"}, ~(lost /\ o.conn = "open" /\ ~late /\ f.call > o.openN))
             o4 == F(o3, {"I01"}, ~o.gone)
         IN [o4 EXCEPT !.done = @ \cup {e.id}, !.fr = IF f.st = "p" THEN @ ELSE Drop(@, e.id)]

Written(cfg, o, e) ==
    IF e.id \notin DOMAIN o.fr \/ e.id \in o.wrote
    THEN F(F(o, {"I02"}, FALSE), {"I01"}, e.id \notin o.done \/ e.id \in o.wrote)
    ELSE LET f == o.fr[e.id]
             o1 == F(o, {"I02"}, f.ret = 0 \/ Get(o.mw, f.q, 0) <= f.ret)
             o2 == F(o1, {"I03"}, e.id \notin o.taint)
             o3 == F(o2, {"I02", "I03"}, o.conn = "open")
             o4 == F(o3, {"I01"}, e.id \notin o.done)
         IN [o4 EXCEPT !.wrote = @ \cup {e.id}, !.mw = Set(@, f.q, MaxOf(Get(@, f.q, 0), f.call))]

TOpen(cfg, o, e) ==
    LET o1 == F(o, {"I03"}, IF o.att < 0 THEN e.t = cfg.t0 ELSE e.t \div 1000 - o.att \div 1000 >= cfg.ri)
        o2 == F(o1, {"I03"}, o.conn # "open" /\ ~o.tr)
    IN StallOn([o2 EXCEPT !.att = e.t, !.opening = TRUE, !.conn = "none", !.fin = FALSE, !.rx = FALSE])
TOpened(cfg, o, e) == StallOff([o EXCEPT !.opening = FALSE, !.tr = e.ok, !.fail = e.t, !.finish = e.fin])

Ctl(cfg, o, e) ==
    IF e.type = START THEN F([o EXCEPT !.conn = "open", !.openT = e.t, !.openN = o.n], {"I03"}, o.conn = "none" /\ o.tr)
    ELSE IF e.type = STOP THEN F([o EXCEPT !.conn = "stopped"], {"I05"}, o.conn = "open")
    ELSE o

Destroyed(cfg, o, e) ==
    LET owed == {i \in DOMAIN o.fr : o.fr[i].st = "a" /\ o.fr[i].kind = 1 /\ i \notin o.done}
        \* accepted while the stream was open, before destroy, and never written
        lost == {i \in DOMAIN o.fr : o.fr[i].st = "a" /\ i \notin o.wrote /\ o.fr[i].call > o.openN /\ o.fr[i].ret < o.dn}
        o1 == F(o, {"I01", "I05"}, owed = {})
        o2 == F(o1, {"I05"}, ~e.alive /\ ~e.leak /\ o.td = 1 /\ ~o.tr /\ ~o.opening)
        o3 == F(o2, {"I05"}, o.conn # "open")
        o4 == F(o3, {"I05"}, (o.conn = "stopped" /\ cfg.bi /\ o.finish) => o.fin)
        o5 == F(o4, {"I02", "I05"}, o.conn = "stopped" => lost = {})
        o6 == F(o5, {"I03"}, o.att >= 0)
    IN [o6 EXCEPT !.gone = TRUE]

GetIdx(cfg, o, e) ==
    LET o1 == F(o, {"I07"}, (e.h = 0) = (e.idx >= cfg.nq))
        o2 == F(o1, {"I07"}, e.h = 0 \/ \A k \in DOMAIN o.gx : (k = e.idx) = (o.gx[k] = e.h))
    IN IF e.h = 0 THEN o2 ELSE [o2 EXCEPT !.gx = Set(@, e.idx, e.h)]
RangeOf(s) == {s[i] : i \in DOMAIN s}
GetRet(cfg, o, e) ==
    LET o1 == IF e.h = 0 THEN F(o, {"I07"}, Len(o.handed) + (o.gp - 1) >= cfg.nq)
              ELSE F(o, {"I07"}, e.h \notin RangeOf(o.handed) /\ Len(o.handed) < cfg.nq)
        o2 == [o1 EXCEPT !.handed = IF e.h = 0 THEN @ ELSE Append(@, e.h), !.gp = @ - 1]
        firsts == {o.gx[k] : k \in {j \in DOMAIN o.gx : j < o2.gcalls}}
    IN F(o2, {"I07"}, o2.gp = 0 /\ Cardinality(DOMAIN o.gx) = cfg.nq => RangeOf(o2.handed) = firsts)

Step(cfg, o, e) ==
    CASE e.e = "init" -> F(o, All, e.ok)
      [] e.e = "gx" -> GetIdx(cfg, o, e)
      [] e.e = "gc" -> [o EXCEPT !.gp = @ + 1, !.gcalls = @ + 1]
      [] e.e = "gr" -> GetRet(cfg, o, e)
      [] e.e = "sc" -> SubmitCall(cfg, o, e)
      [] e.e = "sr" -> SubmitRet(cfg, o, e)
      [] e.e = "fr" -> Released(cfg, o, e)
      [] e.e = "uaf" -> F(o, {"I01"}, FALSE)
      [] e.e = "to" -> TOpen(cfg, o, e)
      [] e.e = "te" -> TOpened(cfg, o, e)
      [] e.e = "tc" -> [o EXCEPT !.tr = FALSE, !.fail = e.t, !.conn = IF @ = "open" THEN "failed" ELSE @,
                                 !.bad = IF o.conn = "open" THEN @ \cup {"I05", "I03"} ELSE @]
      [] e.e = "td" -> [o EXCEPT !.td = @ + 1]
      [] e.e = "c" -> Ctl(cfg, o, e)
      [] e.e = "d" -> Written(cfg, o, e)
      [] e.e = "wb" -> [o EXCEPT !.batch = RangeOf(e.ids)]
      [] e.e = "wv" -> F([o EXCEPT !.batch = {}], {"I04"}, e.n <= cfg.oq /\ (e.n > 1 => e.bytes < cfg.bh))
      [] e.e = "wf" -> [o EXCEPT !.fail = e.t, !.conn = "failed", !.taint = @ \cup o.batch]
      [] e.e = "rx" -> [o EXCEPT !.rx = TRUE]
      [] e.e = "fin" -> [o EXCEPT !.fin = TRUE]
      [] e.e = "bb" -> [StallOn(o) EXCEPT !.bt = e.t]
      [] e.e = "be" -> [StallOff(o) EXCEPT !.blk = @ + (e.t - o.bt)]
      [] e.e = "dc" -> [o EXCEPT !.down = TRUE, !.dn = o.n]
      [] e.e = "dr" -> Destroyed(cfg, o, e)
      [] OTHER -> F(o, All, FALSE)       \* memory error, deadlock, misuse of the transport

IothrStep(cfg, o, e) ==
    LET o0 == [o EXCEPT !.n = @ + 1]
        o1 == IF e.e = "be" THEN o0 ELSE Overdue(cfg, o0, e.t)
        o2 == Step(cfg, o1, e)
        o3 == IF e.e = "be" THEN Overdue(cfg, o2, e.t) ELSE o2
    IN [o3 EXCEPT !.t = e.t]
=============================================================================
