----------------------------- MODULE SockRules -----------------------------
(***************************************************************************)
(* What a TCP or Unix socket writer must do at the system call interface:  *)
(* the observer for T01 and T02. The peer always answers with a valid      *)
(* ACCEPT and FINISH, as far as it gets.                                   *)
(* Units of the stream: READY, START, STOP, data frame ids (> 0), 0 = junk *)
(* Events                                                                  *)
(*   call op ids                     o open, w write, c close, g query, d  *)
(*   ret ok tail cand used           tail: some bytes of an incomplete     *)
(*        unit were accepted on the latest connection, cand: the units     *)
(*        they can belong to; used: what of the peer's bytes was consumed  *)
(*        on it ("none", "accept", "finish" or "mid")                      *)
(*   socket fd | nosock weak | cloexec fd on | connect fd addr ok          *)
(*   snd fd nosig res                a send; res ok/intr/err               *)
(*   units us                        units completed by it                 *)
(*   rcv fd res                      ok/intr/err/eof                       *)
(*   close fd ok | badfd | X                                               *)
(* A weak nosock is a kernel that does not know one kind of socket: it may *)
(* be the reason of a failure, but trying another kind may succeed.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

READYu == -1  STARTu == -2  STOPu == -3
Hs == <<READYu, STARTu>>

SockInit == [h |-> "no", op |-> "none", attempt |-> FALSE, implicit |-> FALSE, pend |-> <<>>,
             cause |-> FALSE, weak |-> FALSE, live |-> {}, conn |-> {}, exec |-> {}, dead |-> {}, bad |-> {}]
Fl(o, p, cond) == IF cond THEN o ELSE [o EXCEPT !.bad = @ \cup {p}]

OnCall(o, e) ==
    LET opens == \/ e.op = "o" /\ o.h \in {"no", "closed"}
                 \/ e.op \in {"w", "g"} /\ o.h = "no"
        usable == o.h = "open" \/ opens
    IN [o EXCEPT !.op = e.op, !.attempt = opens, !.cause = FALSE, !.weak = FALSE,
                 !.pend = (IF opens THEN Hs ELSE <<>>)
                          \o (IF e.op = "w" /\ usable THEN e.ids ELSE <<>>)
                          \o (IF e.op \in {"c", "d"} /\ o.h = "open" THEN <<STOPu>> ELSE <<>>)]

Known(o, fd) == fd \in o.live
OnSocket(o, e) == LET o1 == Fl(o, "T02", o.attempt /\ o.live = {} /\ e.fd \notin o.dead)
                  IN [o1 EXCEPT !.live = @ \cup {e.fd}]
OnConnect(o, e) ==
    LET o1 == Fl(o, "T02", Known(o, e.fd) /\ e.fd \notin o.conn /\ e.addr)
    IN IF e.ok THEN [o1 EXCEPT !.conn = @ \cup {e.fd}] ELSE [o1 EXCEPT !.cause = TRUE]
OnSnd(o, e) ==
    LET o1 == Fl(Fl(o, "T01", e.nosig), "T02", e.fd \in o.conn /\ Known(o, e.fd))
    IN IF e.res = "err" THEN [o1 EXCEPT !.cause = TRUE] ELSE o1
OnUnits(o, e) ==
    LET n == Len(e.us)
        o1 == Fl(o, "T01", n <= Len(o.pend) /\ SubSeq(o.pend, 1, n) = e.us)
    IN [o1 EXCEPT !.pend = IF n <= Len(@) THEN SubSeq(@, n + 1, Len(@)) ELSE <<>>]
OnRcv(o, e) ==
    LET o1 == Fl(o, "T02", e.fd \in o.conn /\ Known(o, e.fd))
    IN IF e.res \in {"err", "eof"} THEN [o1 EXCEPT !.cause = TRUE] ELSE o1
OnClose(o, e) ==
    LET o1 == Fl(o, "T02", Known(o, e.fd))
    IN [o1 EXCEPT !.live = @ \ {e.fd}, !.dead = @ \cup {e.fd}, !.cause = @ \/ ~e.ok]

(* Accepted bytes beyond whole units are the beginning of the next one.    *)
TailOk(o, e) == ~e.tail \/ (o.pend # <<>> /\ \E i \in DOMAIN e.cand : Head(o.pend) = e.cand[i])
Closed(o) == o.live = {}
Connected(o) == Cardinality(o.live) = 1 /\ o.live \subseteq o.conn /\ o.live \subseteq o.exec
Sent(o, e) == o.pend = <<>> /\ ~e.tail

RetOpen(o, e) ==
    IF e.ok THEN LET o1 == Fl(Fl(o, "T01", Sent(o, e)), "T02", ~o.cause /\ Connected(o) /\ e.used = "accept")
                 IN [o1 EXCEPT !.h = "open"]
    ELSE Fl(o, "T02", (o.cause \/ o.weak) /\ Closed(o))
RetWrite(o, e) ==
    LET hs == o.pend = <<>> \/ o.pend[1] \notin {READYu, STARTu}   \* the handshake was sent
    IN IF e.ok
       THEN LET o1 == Fl(o, "T01", Sent(o, e) /\ ~o.cause)
            IN [Fl(o1, "T02", Connected(o) /\ e.used = "accept") EXCEPT !.h = "open"]
       ELSE LET o1 == Fl(Fl(o, "T01", o.cause \/ o.weak), "T02", Closed(o))
            IN IF o.h = "no" /\ ~hs THEN o1 ELSE [o1 EXCEPT !.h = "broken"]
RetClose(o, e) ==
    LET o1 == Fl(o, "T02", Closed(o))
        o2 == IF o.h # "open" THEN o1
              ELSE IF e.ok THEN Fl(Fl(o1, "T01", Sent(o, e)), "T02", ~o.cause /\ e.used = "finish")
              ELSE Fl(o1, "T01", o.cause)
    IN IF o.h = "no" THEN o2 ELSE [o2 EXCEPT !.h = "closed"]

OnRet(o, e) ==
    LET o1 == Fl(o, "T01", TailOk(o, e))
    IN CASE o.op = "d" -> Fl(o1, "T02", Closed(o))
         [] o.op = "c" -> RetClose(o1, e)
         [] o.attempt /\ o.op \in {"o", "g"} -> RetOpen(o1, e)
         [] o.op = "w" /\ o.h \in {"no", "open"} -> RetWrite(o1, e)
         [] OTHER -> o1

SockStep(o, e) ==
    CASE e.e = "call" -> OnCall(o, e)
      [] e.e = "ret" -> OnRet(o, e)
      [] e.e = "socket" -> OnSocket(o, e)
      [] e.e = "nosock" -> IF e.weak THEN [o EXCEPT !.weak = TRUE] ELSE [o EXCEPT !.cause = TRUE]
      [] e.e = "cloexec" -> [o EXCEPT !.exec = IF e.on THEN @ \cup {e.fd} ELSE @ \ {e.fd}]
      [] e.e = "connect" -> OnConnect(o, e)
      [] e.e = "snd" -> OnSnd(o, e)
      [] e.e = "units" -> OnUnits(o, e)
      [] e.e = "rcv" -> OnRcv(o, e)
      [] e.e = "close" -> OnClose(o, e)
      [] e.e = "badfd" -> Fl(o, "T02", FALSE)
      [] e.e = "init" -> Fl(o, "T02", e.want = "any" \/ e.ok = (e.want = "ok"))
      [] OTHER -> [o EXCEPT !.bad = @ \cup {"T01", "T02"}]
=============================================================================
