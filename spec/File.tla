-------------------------------- MODULE File --------------------------------
(***************************************************************************)
(* Design of file readers and writers over a buffered stream, with the     *)
(* FileRules observer attached. A unit of the stream has Size bytes; bytes *)
(* are pairs <<unit, index>>. The device stores at most lim bytes; how     *)
(* much of the buffer is written out at which moment is left open. The     *)
(* device may stay full or have refused just once (full = "once").         *)
(***************************************************************************)
EXTENDS FileRules, Json
CONSTANTS NOps, Size, MaxFrames, Mutation, Gen
VARIABLES disk, buf, st, ops, nid, pos, o, h, full
vars == <<disk, buf, st, ops, nid, pos, o, h, full>>
M(m) == Mutation = m
B(u) == [i \in 1..Size |-> <<u, i>>]
RECURSIVE Bytes(_)
Bytes(us) == IF us = <<>> THEN <<>> ELSE B(Head(us)) \o Bytes(Tail(us))
Fold(os, es) == LET F[i \in 0..Len(es)] == IF i = 0 THEN os ELSE FileStep(F[i-1], es[i]) IN F[Len(es)]

(* How the environment sees the bytes of the file.                         *)
RECURSIVE Units(_)
Units(b) == IF Len(b) < Size THEN <<>>
            ELSE <<IF SubSeq(b, 1, Size) = B(b[1][1]) THEN b[1][1] ELSE 0>> \o Units(SubSeq(b, Size + 1, Len(b)))
See(b) == LET us == Units(b)
              r == SubSeq(b, Len(us) * Size + 1, Len(b))
          IN [e |-> "file", us |-> us, tail |-> r # <<>>, cand |-> IF r # <<>> /\ r = SubSeq(B(r[1][1]), 1, Len(r)) THEN <<r[1][1]>> ELSE <<>>]

Cfgs == {[e |-> "cfg", kind |-> "w", bad |-> FALSE, lim |-> l, cfault |-> c, start |-> Size, stop |-> Size, us |-> <<>>, end |-> "eof"] :
             l \in 0..(Size * (MaxFrames + 2)), c \in BOOLEAN}
        \cup {[e |-> "cfg", kind |-> k, bad |-> TRUE, lim |-> 9, cfault |-> FALSE, start |-> Size, stop |-> Size, us |-> <<>>, end |-> "eof"] : k \in {"w", "r"}}
        \cup {[e |-> "cfg", kind |-> "r", bad |-> FALSE, lim |-> 9, cfault |-> FALSE, start |-> Size, stop |-> Size, us |-> u, end |-> x] :
             u \in UNION {{SubSeq(<<STARTu>> \o [i \in 1..n |-> i] \o <<STOPu>>, 1, m) : m \in 0..(n + 2)} : n \in 0..MaxFrames}, x \in {"eof", "err"}}
cfg == o.cfg
W == cfg.kind = "w"
Init == \E c \in Cfgs : /\ o = FileStep(FileInit, c)
                        /\ disk = (IF c.kind = "w" THEN <<<<0, 1>>, <<0, 2>>, <<0, 3>>>> ELSE Bytes(c.us))
                        /\ buf = <<>> /\ st = "new" /\ ops = NOps /\ nid = 0 /\ pos = 0 /\ full \in (IF c.kind = "w" /\ ~c.bad THEN {"stays", "once"} ELSE {"stays"})
                        /\ h = IF Gen THEN <<<<c.kind, c.bad, c.lim, c.cfault, Len(c.us), c.end, Len(c.us) > 0 /\ c.us[Len(c.us)] = STOPu>>>> ELSE <<>>

Ev(op, ids, evs) == /\ o' = Fold(o, <<[e |-> "call", op |-> op, ids |-> ids, n |-> Size * Len(ids)]>> \o evs)
                    /\ ops' = ops - 1 /\ h' = IF Gen THEN Append(h, IF op = "w" THEN <<op, Len(ids)>> ELSE <<op, 0>>) ELSE h
Ret(r, u) == [e |-> "ret", res |-> r, u |-> u]
(* Store f bytes of b after d: what is on the device then, whether all fit *)
Store(d, b, f) == LET n == IF Len(d) + f <= cfg.lim \/ full = "was" THEN f ELSE IF cfg.lim > Len(d) THEN cfg.lim - Len(d) ELSE 0
                  IN <<d \o SubSeq(b, 1, n), n = f>>

Refused(ok) == full' = IF full = "once" /\ ~ok THEN "was" ELSE full
WOpen(op, ids) ==                 \* open, perhaps followed by a first write
    LET d0 == IF M("append") \/ (M("append2") /\ nid > 0) THEN disk ELSE <<>>
        b == B(STARTu) \o Bytes(ids)
    IN IF cfg.bad THEN /\ Ev(op, ids, <<Ret(IF M("badok") THEN "ok" ELSE "fail", 0)>>) /\ UNCHANGED <<disk, buf, st, pos, full>>
       ELSE \E f \in 0..Len(b) : LET s == Store(d0, b, f)
            IN /\ disk' = s[1] /\ pos' = 0 /\ Refused(s[2])
               /\ Ev(op, ids, <<Ret(IF s[2] THEN "ok" ELSE "fail", 0), See(s[1])>>)
               /\ IF s[2] THEN buf' = SubSeq(b, f + 1, Len(b)) /\ st' = "open"
                  \* START was refused: nothing was opened
                  ELSE buf' = <<>> /\ st' = (IF cfg.lim < Size THEN "stop" ELSE IF op = "w" THEN "broken" ELSE st)
WWrite(ids) == LET b == buf \o (IF M("lastfirst") THEN Bytes(<<ids[Len(ids)]>> \o SubSeq(ids, 1, Len(ids) - 1)) ELSE Bytes(ids))
           IN \E f \in 0..Len(b) : LET s == Store(disk, b, f)
              IN /\ disk' = s[1] /\ pos' = pos /\ Refused(s[2])
                 /\ Ev("w", ids, <<Ret(IF s[2] \/ M("ignorewrite") THEN "ok" ELSE "fail", 0), See(s[1])>>)
                 /\ IF s[2] \/ M("ignorewrite") THEN buf' = SubSeq(b, f + 1, Len(b)) /\ st' = "open" ELSE buf' = <<>> /\ st' = "broken"
WClose(op) == IF st = "open"
              THEN LET b == buf \o (IF M("nostop") THEN <<>> ELSE B(STOPu))
                       s == Store(disk, IF M("noflush") THEN <<>> ELSE b, IF M("noflush") THEN 0 ELSE Len(b))
                       ok == (s[2] /\ ~cfg.cfault) \/ M("ignoreclose")
                   IN /\ Ev(op, <<>>, <<Ret(IF ok THEN "ok" ELSE "fail", 0), See(s[1]), [e |-> "fds", leak |-> IF M("leak") THEN 1 ELSE 0]>>)
                      /\ disk' = s[1] /\ buf' = <<>> /\ st' = (IF op = "d" THEN "gone" ELSE "closed") /\ UNCHANGED pos /\ Refused(s[2])
              ELSE /\ Ev(op, <<>>, <<Ret("fail", 0), See(disk), [e |-> "fds", leak |-> 0]>>)
                   /\ st' = (IF op = "d" THEN "gone" ELSE IF st = "broken" THEN "closed" ELSE st) /\ UNCHANGED <<disk, buf, pos, full>>

(* Reader: pos units were consumed.                                        *)
Next1 == IF pos < Len(cfg.us) THEN cfg.us[pos + 1] ELSE 0
ErrRes == IF cfg.end = "err" /\ ~M("errstop") THEN "fail" ELSE "stop"
ROpen(op) ==
    LET p0 == IF M("nocontinue") /\ st = "closed" THEN pos ELSE 0
        ok == ~cfg.bad /\ cfg.us # <<>>
    IN IF ~ok THEN /\ Ev(op, <<>>, <<Ret(IF cfg.bad THEN "fail" ELSE ErrRes, 0)>>) /\ UNCHANGED <<disk, buf, st, pos, full>>
       ELSE IF op = "o" THEN /\ Ev(op, <<>>, <<Ret("ok", 0)>>) /\ pos' = (IF p0 > 0 THEN p0 ELSE 1) /\ st' = "open" /\ UNCHANGED <<disk, buf, full>>
       ELSE LET u == IF Len(cfg.us) >= 2 THEN cfg.us[2] ELSE 0
            IN /\ Ev(op, <<>>, <<IF u > 0 THEN Ret("ok", u) ELSE IF u < 0 THEN Ret("stop", 0) ELSE Ret(ErrRes, 0)>>)
               /\ pos' = 2 /\ st' = (IF u > 0 THEN "open" ELSE "ended") /\ UNCHANGED <<disk, buf, full>>
RRead1 == LET u == Next1
          IN /\ Ev("r", <<>>, <<IF st # "open" THEN Ret("fail", 0) ELSE
                                IF u > 0 /\ M("early") /\ pos + 1 = Len(cfg.us) THEN Ret(ErrRes, 0)
                                ELSE IF u > 0 THEN Ret("ok", IF M("again") /\ u = 2 THEN 1 ELSE u)
                                ELSE IF u < 0 THEN Ret("stop", 0) ELSE Ret(ErrRes, 0)>>)
             /\ st' = (IF st = "open" /\ u <= 0 THEN "ended" ELSE st) /\ pos' = (IF st = "open" THEN pos + 1 ELSE pos) /\ UNCHANGED <<disk, buf, full>>
RClose(op) == /\ Ev(op, <<>>, <<Ret(IF st \in {"open", "ended"} THEN "ok" ELSE "fail", 0), [e |-> "fds", leak |-> IF M("leak") THEN 1 ELSE 0]>>)
              /\ st' = (IF op = "d" THEN "gone" ELSE IF st \in {"open", "ended"} THEN "closed" ELSE st) /\ UNCHANGED <<disk, buf, pos, full>>

Next == /\ ops > 0 /\ st \notin {"gone", "stop"}
        /\ \/ /\ st \in {"new", "closed"} /\ (IF W THEN WOpen("o", <<>>) ELSE ROpen("o")) /\ UNCHANGED nid
           \/ /\ W /\ \E n \in 1..2 : LET ids == [i \in 1..n |-> nid + i]
                    IN /\ nid + n <= MaxFrames /\ nid' = nid + n
                       /\ \/ st = "new" /\ WOpen("w", ids)
                          \/ st = "open" /\ WWrite(ids)
                          \/ st \in {"broken", "closed"} /\ Ev("w", ids, <<Ret("fail", 0), See(disk)>>) /\ UNCHANGED <<disk, buf, st, pos, full>>
           \/ /\ ~W /\ UNCHANGED nid /\ (IF st = "new" THEN ROpen("r") ELSE RRead1)
           \/ /\ \E op \in {"c", "d"} : IF W THEN WClose(op) ELSE RClose(op)
              /\ UNCHANGED nid
Spec == Init /\ [][Next]_vars
NoBad == o.bad = {}
Emit == (Gen /\ (ops = 0 \/ st \in {"gone", "stop"})) => PrintT("SCRIPT " \o ToJson([h |-> h]))
=============================================================================
