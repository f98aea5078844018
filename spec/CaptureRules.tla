---------------------------- MODULE CaptureRules ----------------------------
(***************************************************************************)
(* What fstrm_capture must do: the observer for P01-P04.                   *)
(* A client's byte stream is a sequence of tokens [k, cts, n, id]: k is    *)
(* "ready", "start", "stop", "accept", "finish" (a well-formed control     *)
(* frame with content types cts, 0: the configured one), "bad" (any other  *)
(* control frame), "len" (a control frame length that is out of range,     *)
(* known after 8 bytes) or "data"; n: its size in the stream; id: which    *)
(* data frame. Events                                                      *)
(*   cfg buf maxc split pat std lim bad now    read buffer size, most      *)
(*       connections (0: any number), split interval, output named by a    *)
(*       pattern, output to standard output, most bytes that an output     *)
(*       can hold, output cannot be opened, the time                       *)
(*   conn toks         a client connects (conns are numbered)              *)
(*   tx c n | fin c | half c    it sends n bytes; closes; ends sending     *)
(*   sig s             "usr1", "hup" or "term" sent                        *)
(*   time t                                                                *)
(*   idle rep closed nf t    it has done all it can: replies received and  *)
(*       whether closed, per client; number of outputs; name of the newest *)
(*   exit rc                                                               *)
(*   files fs how      contents of all outputs in order, each [us, tail,   *)
(*       cand] as in FileRules; how "flush" after a HUP, "end" at the end  *)
(*   frames id from c: id \div 10000 = c                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

STARTu == -2  STOPu == -3
BIG == 1000000000
CapInit == [cfg |-> [buf |-> 0, maxc |-> 0, split |-> 0, pat |-> FALSE, std |-> FALSE, lim |-> BIG, bad |-> FALSE, now |-> 0, start |-> 0],
            c |-> <<>>, now |-> 0, open |-> 0, nf |-> 1, cuts |-> <<>>, sigs |-> {}, gone |-> FALSE, rc |-> 0, hup |-> FALSE, hlo |-> <<>>, more |-> FALSE, first |-> TRUE, bad |-> {}]
Fl(o, cond, props) == IF cond THEN o ELSE [o EXCEPT !.bad = @ \cup props]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

(* ---- one connection --------------------------------------------------- *)
NewConn(toks) == [toks |-> toks, sent |-> 0, pos |-> 1, used |-> 0, st |-> "ready", rep |-> <<>>, rec |-> <<>>, lo |-> 0,
                  cl |-> "open", served |-> FALSE, ended |-> FALSE, oop |-> FALSE]
Ours(cts) == cts = <<>> \/ \E i \in DOMAIN cts : cts[i] = 0
Proc(buf, c, tk) ==
    LET n == [c EXCEPT !.pos = @ + 1, !.used = @ + tk.n]
    IN CASE tk.k = "data" /\ tk.n > buf -> [n EXCEPT !.oop = @ \/ c.st # "data"]
         [] tk.k = "data" /\ c.st = "data" -> [n EXCEPT !.rec = Append(@, tk.id)]
         [] tk.k = "ready" /\ c.st = "ready" /\ Ours(tk.cts) -> [n EXCEPT !.st = "start", !.rep = Append(@, "A")]
         [] tk.k = "start" /\ c.st = "start" /\ Ours(tk.cts) -> [n EXCEPT !.st = "data"]
         [] tk.k = "stop" /\ c.st = "data" -> [n EXCEPT !.st = "stopped", !.rep = Append(@, "F")]
         [] OTHER -> [n EXCEPT !.st = "dead"]
RECURSIVE Advance(_, _)
Advance(buf, c) ==
    IF c.st \in {"dead", "stopped"} \/ c.pos > Len(c.toks) \/ c.used + c.toks[c.pos].n > c.sent THEN c
    ELSE Advance(buf, Proc(buf, c, c.toks[c.pos]))
(* An oversized frame where no data frame may be: skipped or disconnected. *)
Run(buf, c, closed) ==
    LET d == Advance(buf, c)
    IN [d EXCEPT !.served = TRUE, !.ended = d.st \in {"dead", "stopped"} \/ d.cl # "open" \/ (d.oop /\ closed),
                 !.lo = IF d.cl = "fin" \/ (d.oop /\ closed) THEN @ ELSE Len(d.rec)]
Live(cs) == Cardinality({i \in DOMAIN cs : cs[i].served /\ ~cs[i].ended})
RECURSIVE Serve(_, _, _)
Serve(cfg, cs, closed) ==
    LET w == {i \in DOMAIN cs : ~cs[i].served}
    IN IF w = {} \/ (cfg.maxc > 0 /\ Live(cs) >= cfg.maxc) THEN cs
       ELSE LET i == CHOOSE i \in w : \A j \in w : i <= j
            IN Serve(cfg, [cs EXCEPT ![i] = Run(cfg.buf, @, closed[i])], closed)
Work(cfg, cs, closed) ==
    Serve(cfg, [i \in DOMAIN cs |-> IF cs[i].served /\ ~cs[i].ended THEN Run(cfg.buf, cs[i], closed[i]) ELSE cs[i]], closed)

IsPrefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
(* what client c sees *)
SeenOk(c, rep, closed) ==
    CASE ~c.served -> rep = <<>> /\ ~closed
      [] c.cl = "fin" -> TRUE
      [] c.st = "dead" -> IsPrefix(rep, c.rep) /\ closed
      [] c.st = "stopped" -> closed /\ (IF c.sent > c.used \/ c.cl # "open" THEN IsPrefix(rep, c.rep) ELSE rep = c.rep)
      [] c.cl = "half" -> closed /\ IsPrefix(rep, c.rep)
      [] c.oop /\ closed -> IsPrefix(rep, c.rep)
      [] OTHER -> rep = c.rep /\ ~closed
Over(o) == \E i \in DOMAIN o.c : \E j \in DOMAIN o.c[i].toks : o.c[i].toks[j].n > o.cfg.buf
Others(o) == IF Len(o.c) > 1 \/ Over(o) THEN {"P04"} ELSE {}

Need(o) == \* bytes of all outputs together, at most
    o.nf * (o.cfg.start + 12) + Sum([i \in DOMAIN o.c |-> LET c == o.c[i] IN Sum([j \in DOMAIN c.toks |-> IF c.toks[j].k = "data" /\ c.toks[j].n <= o.cfg.buf THEN c.toks[j].n ELSE 0])])
MayFail(o) == o.cfg.bad \/ Need(o) > o.cfg.lim

(* ---- events ----------------------------------------------------------- *)
OnIdle(o, e) ==
    LET cs == Work(o.cfg, o.c, e.closed)
        glo == Sum([i \in DOMAIN cs |-> cs[i].lo - o.c[i].lo])
        ghi == Sum([i \in DOMAIN cs |-> Len(cs[i].rec) - Len(o.c[i].rec)])
        exp == o.cfg.split > 0 /\ o.now >= o.open + o.cfg.split
        usr == "usr1" \in o.sigs /\ ~o.cfg.std
        rot == ~o.first /\ e.nf # o.nf
        o1 == Fl([o EXCEPT !.c = cs], ~o.gone /\ ~o.cfg.bad, {"P01", "P03", "P04"})
        o2 == Fl(o1, "term" \notin o.sigs, {"P03"})
        o3 == Fl(o2, \A i \in DOMAIN cs : SeenOk(cs[i], e.rep[i], e.closed[i]), {"P02"} \cup Others(o))
        o4 == IF o.cfg.std THEN o3
              ELSE Fl(o3, IF o.first THEN e.nf = 1
                          ELSE /\ usr \/ (exp /\ glo > 0) => rot
                               /\ rot => usr \/ (exp /\ ghi > 0)
                               /\ e.nf \in {o.nf, o.nf + 1}, {"P03"})
        o5 == Fl(o4, o.cfg.pat /\ (rot \/ o.first) => e.t = o.now, {"P03"})
        cut == [lo |-> [i \in DOMAIN o.c |-> o.c[i].lo], hi |-> [i \in DOMAIN cs |-> Len(cs[i].rec)],
                tot |-> IF usr THEN BIG ELSE Sum([i \in DOMAIN o.c |-> Len(o.c[i].rec)]) + 1]
    IN [o5 EXCEPT !.nf = e.nf, !.cuts = IF rot THEN Append(@, cut) ELSE @, !.open = IF rot \/ o.first THEN o.now ELSE @,
                  !.sigs = {}, !.first = FALSE, !.hup = @ \/ "hup" \in o.sigs,
                  !.hlo = [i \in DOMAIN o.c |-> o.c[i].lo]]   \* recorded before the signals were sent

OnExit(o, e) ==
    LET cs == Work(o.cfg, o.c, [i \in DOMAIN o.c |-> FALSE])
        lo == [i \in DOMAIN cs |-> [cs[i] EXCEPT !.lo = o.c[i].lo]]     \* what was left unread when it ended
        exp == o.cfg.split > 0 /\ o.now >= o.open + o.cfg.split
        usr == "usr1" \in o.sigs
        cut == [lo |-> [i \in DOMAIN o.c |-> o.c[i].lo], hi |-> [i \in DOMAIN cs |-> Len(cs[i].rec)],
                tot |-> IF usr THEN BIG ELSE Sum([i \in DOMAIN o.c |-> Len(o.c[i].rec)]) + 1]
        \* it may have rotated once more
        o1 == [o EXCEPT !.c = lo, !.gone = TRUE, !.rc = e.rc, !.more = usr \/ exp, !.cuts = Append(@, cut)]
    IN IF "term" \in o.sigs THEN Fl(o1, IF o.cfg.lim < o.cfg.start + 12 THEN e.rc # 0 ELSE e.rc = 0 \/ MayFail(o1), {"P01", "P03"})
       ELSE Fl(o1, e.rc # 0 /\ MayFail(o1), {"P01", "P04"} \cup (IF o.sigs # {} \/ o.cfg.pat THEN {"P03"} ELSE {}))

(* Contents. *)
RECURSIVE CatUs(_)
CatUs(fs) == IF fs = <<>> THEN <<>> ELSE Head(fs).us \o CatUs(Tail(fs))
Of(us, c) == SelectSeq(us, LAMBDA u : u > 0 /\ u \div 10000 = c)
DataOf(us) == SelectSeq(us, LAMBDA u : u >= 0)
Shape(us, stop) ==   \* START, frames, maybe STOP
    /\ us # <<>> /\ us[1] = STARTu
    /\ \A i \in 2..Len(us) : us[i] > 0 \/ (stop /\ i = Len(us) /\ us[i] = STOPu)
    /\ stop => us[Len(us)] = STOPu
PartShape(f) ==      \* a beginning of that
    \/ f.us = <<>> /\ (f.tail => \E i \in DOMAIN f.cand : f.cand[i] = STARTu)
    \/ /\ f.us # <<>> /\ f.us[1] = STARTu
       /\ \A i \in 2..Len(f.us) : f.us[i] > 0 \/ (i = Len(f.us) /\ f.us[i] = STOPu)
       /\ f.tail => f.us[Len(f.us)] # STOPu
(* the partial unit at the end is the next frame of some client, or STOP *)
TailOk(o, fs) ==
    LET f == fs[Len(fs)]  all == CatUs(fs)
    IN f.tail /\ f.us # <<>> =>
         \E i \in DOMAIN f.cand :
            \/ f.cand[i] = STOPu
            \/ \E c \in DOMAIN o.c : LET k == Len(Of(all, c)) IN k < Len(o.c[c].rec) /\ o.c[c].rec[k + 1] = f.cand[i]
OnFiles(o, e) ==
    LET n == Len(e.fs)
        all == CatUs(e.fs)
        part == (o.gone /\ o.rc # 0) \/ (e.how = "flush" /\ MayFail(o))
        rotp == IF o.nf > 1 \/ o.hup \/ e.how = "flush" \/ o.gone THEN {"P03"} ELSE {}
        o1 == Fl(o, n = o.nf \/ (o.more /\ n = o.nf + 1) \/ o.cfg.std \/ part, {"P03"})
        o2 == Fl(o1, \A k \in 1..n : IF k < n THEN Shape(e.fs[k].us, TRUE) /\ ~e.fs[k].tail
                                     ELSE IF part THEN PartShape(e.fs[k]) /\ TailOk(o, e.fs)
                                     \* a frame that came with the signal may be flushed in part
                                     ELSE IF e.how = "flush" THEN Shape(e.fs[k].us, FALSE) /\ TailOk(o, e.fs)
                                     ELSE Shape(e.fs[k].us, TRUE) /\ ~e.fs[k].tail, {"P01"} \cup rotp)
        \* frames that no valid session contained
        o3 == Fl(o2, \A i \in DOMAIN all : all[i] > 0 => LET c == all[i] \div 10000 IN c \in DOMAIN o.c /\ \E j \in DOMAIN o.c[c].rec : o.c[c].rec[j] = all[i],
                 {"P01", "P02"} \cup Others(o))
        \* every frame once and in order
        o4 == Fl(o3, \A c \in DOMAIN o.c : LET s == Of(all, c) IN IsPrefix(s, o.c[c].rec) /\ (part \/ Len(s) >= IF e.how = "flush" THEN o.hlo[c] ELSE o.c[c].lo),
                 {"P01"} \cup rotp \cup Others(o))
        \* and in the right file
        o5 == Fl(o4, \A k \in 1..Len(o.cuts) : k < n =>
                        LET s == CatUs(SubSeq(e.fs, 1, k))
                        IN /\ \A c \in DOMAIN o.cuts[k].lo : Len(Of(s, c)) >= o.cuts[k].lo[c]
                           /\ \A c \in DOMAIN o.c : Len(Of(s, c)) <= (IF c \in DOMAIN o.cuts[k].hi THEN o.cuts[k].hi[c] ELSE 0)
                           /\ Len(DataOf(s)) <= o.cuts[k].tot, {"P03"})
    IN o5

CapStep(o, e) ==
    CASE e.e = "cfg" -> [o EXCEPT !.cfg = e, !.now = e.now]
      [] e.e = "conn" -> [o EXCEPT !.c = Append(@, NewConn(e.toks))]
      [] e.e = "tx" -> [o EXCEPT !.c[e.c].sent = @ + e.n]
      [] e.e = "fin" -> [o EXCEPT !.c[e.c].cl = "fin"]
      [] e.e = "half" -> [o EXCEPT !.c[e.c].cl = "half"]
      [] e.e = "sig" -> [o EXCEPT !.sigs = @ \cup {e.s}]
      [] e.e = "time" -> [o EXCEPT !.now = e.t]
      [] e.e = "idle" -> OnIdle(o, e)
      [] e.e = "exit" -> OnExit(o, e)
      [] e.e = "files" -> OnFiles(o, e)
      [] OTHER -> [o EXCEPT !.bad = @ \cup {"P01", "P02", "P03", "P04"}]
=============================================================================
