------------------------------ MODULE OptRules ------------------------------
(***************************************************************************)
(* O01: which values option setters accept, and that the value in effect   *)
(* is the last accepted one, seen in what the created object does.         *)
(* Values are quadruples of 16-bit words. Times are milliseconds.          *)
(* Events                                                                  *)
(*   set name v ok           a setter of the I/O thread options            *)
(*   mode m                  which probe follows (see below)               *)
(*   init ok                 creation (options are changed again after it) *)
(*   gx v some | gq some     input queue by index / next one               *)
(*   sc q len t | sr ok again   submit                                     *)
(*   fill n again            while held, n submits were accepted and the   *)
(*                           next one was not                              *)
(*   to | te                 transport open begins / ends                  *)
(*   wv n bytes | d k t      a write of n frames; the k-th frame written   *)
(*   dr n                    destroyed, n: frames written in all           *)
(*   rset v ok               reader maximum frame size                     *)
(*   frame v ok              a complete frame of that size was / was not   *)
(*                           returned                                      *)
(*   ct n c w r              content type c of n bytes: accepted by the    *)
(*                           writer's / the reader's options               *)
(*   ready cs                content types that the writer offered         *)
(*   start c ok              the reader did / did not take a stream of     *)
(*                           that content type                             *)
(* Probes: "burst" one queue is filled while the I/O thread is held in its *)
(* first open ("fill": only its capacity is looked at); "lone" single frames far apart; "retry" failing opens;      *)
(* "notify" frames every 10 ms, output queue of 2, long flush timeout;     *)
(* "race" several producers; "queues" handing out of queues.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Q(n) == <<0, 0, n \div 65536, n % 65536>>
RECURSIVE LexLE(_, _, _)
LexLE(a, b, i) == IF i > 4 THEN TRUE ELSE a[i] < b[i] \/ (a[i] = b[i] /\ LexLE(a, b, i + 1))
LE(a, b) == LexLE(a, b, 1)
Small(v) == v[1] = 0 /\ v[2] = 0 /\ v[3] < 16384
Num(v) == v[3] * 65536 + v[4]
In(v, lo, hi) == Small(v) /\ Num(v) >= lo /\ Num(v) <= hi
Pow2 == {2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384}
Valid(name, v) ==
    CASE name = "bh" -> In(v, 1024, 65536)
      [] name = "ft" -> In(v, 1, 600)
      [] name = "iq" -> Small(v) /\ Num(v) \in Pow2
      [] name = "nq" -> v # Q(0)
      [] name = "oq" -> In(v, 2, 1024)
      [] name = "m" -> v \in {Q(0), Q(1)}
      [] name = "nt" -> v # Q(0)
      [] name = "ri" -> In(v, 1, 600)
ValidMax(v) == LE(Q(512), v) /\ LE(v, <<0, 0, 65535, 65534>>)

Default == [bh |-> Q(8192), ft |-> Q(1), iq |-> Q(512), nq |-> Q(1), oq |-> Q(64), m |-> Q(0), nt |-> Q(32), ri |-> Q(5)]
OptInit == [eff |-> Default, mode |-> "none", max |-> Q(1048576), ct |-> <<>>,
            acc |-> <<>>, w |-> 0, held |-> FALSE, hacc |-> 0, att |-> -1, tend |-> 0, sub |-> 0, len |-> 0, alone |-> TRUE, nth |-> 0, gq |-> 0, bad |-> {}]
Fl(o, cond) == IF cond THEN o ELSE [o EXCEPT !.bad = @ \cup {"O01"}]
E(o, name) == Num(o.eff[name])

OnSr(o, e) ==
    LET o1 == IF o.held /\ o.mode = "burst"
              THEN Fl(o, IF e.ok THEN o.hacc < E(o, "iq") - 1 ELSE e.again /\ o.hacc >= E(o, "iq") - 1) ELSE o
        \* woken by the frame that makes nt outstanding (or the one after it)
        o2 == IF o.mode = "notify" THEN Fl(o1, e.ok => Len(o.acc) + 1 - o.w <= E(o, "nt") + 2) ELSE o1
    IN IF ~e.ok THEN o2
       ELSE [o2 EXCEPT !.acc = Append(@, [len |-> o.len, t |-> o.sub, alone |-> o.alone]), !.hacc = IF o.held THEN @ + 1 ELSE @]
OnWv(o, e) ==
    LET o1 == Fl(o, e.n <= E(o, "oq") /\ (e.n > 1 => e.bytes < E(o, "bh")))
        w1 == o.w + e.n
        \* more was available: the batch is as large as it may be
        o2 == IF o.mode = "burst" /\ w1 < Len(o.acc) THEN Fl(o1, e.n = E(o, "oq") \/ e.bytes + o.acc[w1 + 1].len + 4 >= E(o, "bh")) ELSE o1
        o3 == IF o.mode = "notify" THEN Fl(o2, Len(o.acc) + 1 >= E(o, "nt")) ELSE o2
    IN [o3 EXCEPT !.w = w1]
OnData(o, e) ==
    IF o.mode # "lone" THEN o
    ELSE LET dt == e.t - o.acc[e.k].t
         IN [Fl(o, (o.acc[e.k].alone /\ o.sub = o.acc[e.k].t => dt >= 500 * E(o, "ft"))  \* no other frame to be written with it
                     /\ dt <= 2000 * E(o, "ft") + 1) EXCEPT !.nth = e.k]
OnTo(o, e) ==
    LET o1 == IF o.mode # "retry" \/ o.att < 0 THEN o
              ELSE Fl(o, /\ e.t \div 1000 - o.att \div 1000 >= E(o, "ri")
                         /\ e.t <= (IF o.att + 1000 * E(o, "ri") > o.tend THEN o.att + 1000 * E(o, "ri") ELSE o.tend) + 1000 * E(o, "ft") + 1)
    IN [o1 EXCEPT !.att = e.t, !.held = TRUE, !.hacc = 0]

OptStep(o, e) ==
    CASE e.e = "set" -> LET ok == Valid(e.name, e.v)
                            o1 == Fl(o, e.ok = ok)
                        IN IF ok THEN [o1 EXCEPT !.eff = [@ EXCEPT ![e.name] = e.v]] ELSE o1
      [] e.e = "mode" -> [o EXCEPT !.mode = e.m]
      [] e.e = "init" -> Fl(o, e.ok)
      [] e.e = "gx" -> Fl(o, e.some = (LE(e.v, o.eff.nq) /\ e.v # o.eff.nq))
      [] e.e = "gq" -> [Fl(o, e.some = (LE(Q(o.gq), o.eff.nq) /\ Q(o.gq) # o.eff.nq)) EXCEPT !.gq = @ + 1]
      [] e.e = "sc" -> [o EXCEPT !.len = e.len, !.sub = e.t, !.alone = (o.nth = Len(o.acc))]
      [] e.e = "sr" -> OnSr(o, e)
      [] e.e = "fill" -> Fl(o, e.again /\ e.n = E(o, "iq") - 1)
      [] e.e = "to" -> OnTo(o, e)
      [] e.e = "te" -> [o EXCEPT !.held = FALSE, !.tend = e.t]
      [] e.e = "wv" -> OnWv(o, e)
      [] e.e = "d" -> OnData(o, e)
      [] e.e = "dr" -> Fl(o, o.mode \in {"race", "burst", "lone"} => e.n = Len(o.acc))
      [] e.e = "rset" -> LET o1 == Fl(o, e.ok = ValidMax(e.v)) IN IF ValidMax(e.v) THEN [o1 EXCEPT !.max = e.v] ELSE o1
      [] e.e = "frame" -> Fl(o, e.ok = LE(e.v, o.max))
      [] e.e = "ct" -> LET o1 == Fl(o, e.w = (e.n <= 256) /\ e.r = (e.n <= 256))
                       IN IF e.n <= 256 THEN [o1 EXCEPT !.ct = Append(@, e.c)] ELSE o1
      [] e.e = "ready" -> Fl(o, e.cs = o.ct)
      [] e.e = "start" -> Fl(o, e.ok = (o.ct = <<>> \/ \E i \in DOMAIN o.ct : o.ct[i] = e.c))
      [] OTHER -> [o EXCEPT !.bad = @ \cup {"O01"}]
=============================================================================
