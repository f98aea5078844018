------------------------------ MODULE Capture ------------------------------
(***************************************************************************)
(* fstrm_capture: an event loop that accepts clients, reassembles frames   *)
(* in a bounded buffer per connection, follows the protocol, and writes    *)
(* one output at a time; with signals, rotation by time, a limit on        *)
(* connections and an output of bounded size. Between the driver's "go"    *)
(* and idleness the program takes any order of its steps.                  *)
(* Bytes are counted in coarse units: control frames 2, data frames 3, 4   *)
(* or 6; the read buffer holds 4.                                          *)
(***************************************************************************)
EXTENDS CaptureRules, Json

CONSTANTS NConn, NOps, MaxC, Split, Std, Lim, Kinds, Chunks, Sigs, Gen, Mutation
Buf == 4
Pat == Split > 0 \/ "pat" \in Kinds

T(k, cts, n, id) == [k |-> k, cts |-> cts, n |-> n, id |-> id]
R == T("ready", <<0>>, 2, 0)  S == T("start", <<0>>, 2, 0)  E == T("stop", <<>>, 2, 0)
D(c, i) == T("data", <<>>, 3, c * 10000 + i)
D4(c, i) == T("data", <<>>, 4, c * 10000 + i)
D6(c, i) == T("data", <<>>, 6, c * 10000 + i)
Library(c) ==
    [good |-> <<R, S, D(c, 1), D4(c, 2), E>>,
     two |-> <<R, S, D(c, 1), E>>,
     none |-> <<T("ready", <<>>, 2, 0), T("start", <<>>, 2, 0), D(c, 1), D(c, 2)>>,
     over |-> <<R, S, D(c, 1), D6(c, 2), D(c, 3), E>>,
     over2 |-> <<R, S, D6(c, 1), D6(c, 2), D4(c, 3), E>>,
     early |-> <<R, D(c, 1), S, D(c, 2), E>>,
     first |-> <<D(c, 1), R, S, D(c, 2)>>,
     late |-> <<R, S, D(c, 1), E, D(c, 2), E>>,
     alien |-> <<T("ready", <<1>>, 2, 0), S, D(c, 1), E>>,
     many |-> <<T("ready", <<1, 0>>, 2, 0), T("start", <<1>>, 2, 0), D(c, 1), E>>,
     bad |-> <<R, S, D(c, 1), T("bad", <<>>, 2, 0), D(c, 2), E>>,
     len |-> <<R, T("len", <<>>, 2, 0), S, D(c, 1)>>,
     again |-> <<R, S, D(c, 1), S, D(c, 2), E>>,
     finish |-> <<R, S, T("finish", <<>>, 2, 0), D(c, 1), E>>,
     overfirst |-> <<D6(c, 1), R, S, D(c, 2), E>>]
Libs == Kinds \cap DOMAIN Library(1)

VARIABLES o, phase, h, now, opn, sigs,
          cl,      \* clients: [name, sent, kq, st, rep, shut]
          pc,      \* program's connections
          slots, files, going, mon
vars == <<o, phase, h, now, opn, sigs, cl, pc, slots, files, going, mon>>

Client(name) == [name |-> name, sent |-> 0, kq |-> 0, rep |-> <<>>, shut |-> "open", closed |-> FALSE]
PConn == [up |-> FALSE, gone |-> FALSE, buf |-> 0, st |-> "ready", pos |-> 1, skip |-> 0, out |-> <<>>]
NewFile == [us |-> <<STARTu>>, fl |-> 1]
Toks(c) == Library(c)[cl[c].name]
M(m) == Mutation = m

CfgEv == [e |-> "cfg", buf |-> Buf, maxc |-> MaxC, split |-> Split, pat |-> Pat, std |-> Std, lim |-> Lim, bad |-> FALSE, now |-> 0, start |-> 2]
IdleEv(c, p, f, t) == [e |-> "idle", rep |-> [i \in DOMAIN c |-> c[i].rep], closed |-> [i \in DOMAIN c |-> c[i].closed], nf |-> Len(f), t |-> IF Pat THEN t ELSE 0]
Init ==
    /\ o = CapStep(CapStep(CapInit, CfgEv), IdleEv(<<>>, <<>>, <<NewFile>>, 0))
    /\ phase = "drv" /\ h = <<>> /\ now = 0 /\ opn = 0 /\ sigs = {} /\ cl = <<>> /\ pc = <<>>
    /\ slots = (IF MaxC = 0 THEN -1 ELSE MaxC) /\ files = <<NewFile>> /\ going = FALSE /\ mon = FALSE

HLen == Len(h)
Op(op, ev) == /\ phase = "drv" /\ HLen < NOps /\ ~going
              /\ h' = (IF Gen THEN Append(h, op) ELSE Append(h, 0))
              /\ o' = IF ev = <<>> THEN o ELSE CapStep(o, ev[1])

(* ---- the driver ------------------------------------------------------- *)
Conn == /\ Len(cl) < NConn
        /\ \E k \in Libs : /\ Op(<<"conn", k>>, <<[e |-> "conn", toks |-> Library(Len(cl) + 1)[k]]>>)
                           /\ cl' = Append(cl, Client(k)) /\ pc' = Append(pc, PConn)
        /\ UNCHANGED <<phase, now, opn, sigs, slots, files, going, mon>>
Total(c) == Sum([i \in DOMAIN Toks(c) |-> Toks(c)[i].n])
Tx == /\ \E c \in DOMAIN cl : cl[c].shut = "open" /\ ~cl[c].closed /\ cl[c].sent < Total(c)
            /\ \E n \in (Chunks \cap (1..(Total(c) - cl[c].sent))) \cup {Total(c) - cl[c].sent} :
                  /\ Op(<<"tx", c, n>>, <<[e |-> "tx", c |-> c, n |-> n]>>)
                  /\ cl' = [cl EXCEPT ![c].sent = @ + n, ![c].kq = @ + n]
      /\ UNCHANGED <<phase, now, opn, sigs, pc, slots, files, going, mon>>
Shut == /\ \E c \in DOMAIN cl, s \in {"fin", "half"} \cap Kinds : cl[c].shut = "open" /\ ~cl[c].closed
              /\ Op(<<s, c>>, <<[e |-> s, c |-> c]>>)
              /\ cl' = [cl EXCEPT ![c].shut = s]
        /\ UNCHANGED <<phase, now, opn, sigs, pc, slots, files, going, mon>>
Sig == /\ \E s \in Sigs \ sigs : /\ Op(<<"sig", s>>, <<[e |-> "sig", s |-> s]>>)
                                 /\ s = "usr1" => (~(Pat /\ now = opn) /\ Split = 0)
                                 /\ sigs' = sigs \cup {s}
       /\ UNCHANGED <<phase, now, opn, cl, pc, slots, files, going, mon>>
Clock == /\ Pat /\ now < 3 /\ Op(<<"time", now + 1>>, <<[e |-> "time", t |-> now + 1]>>) /\ now' = now + 1
         /\ sigs = {} /\ \A c \in DOMAIN cl : pc[c].up \/ pc[c].gone => cl[c].kq = 0
         /\ UNCHANGED <<phase, opn, sigs, cl, pc, slots, files, going, mon>>
Go == /\ phase = "drv" /\ ~going
      /\ HLen > 0
      /\ (Gen => h[HLen] # <<"go">>)
      /\ phase' = "run" /\ going' = TRUE
      /\ h' = (IF Gen THEN Append(h, <<"go">>) ELSE h)
      /\ UNCHANGED <<o, now, opn, sigs, cl, pc, slots, files, mon>>

(* ---- output ----------------------------------------------------------- *)
W(fs, u) == [fs EXCEPT ![Len(fs)].us = Append(@, u)]
Closed(fs) == IF M("rotnostop") THEN [fs EXCEPT ![Len(fs)].fl = Len(fs[Len(fs)].us)]
              ELSE LET g == W(fs, STOPu) IN [g EXCEPT ![Len(g)].fl = Len(g[Len(g)].us)]
Rotated(fs) == IF M("rotsame") THEN <<NewFile>> ELSE Append(Closed(fs), NewFile)

(* ---- one connection's parse loop, as far as the buffer goes ----------- *)
(* state x: [p (PConn), fs, op (open time), rot]                           *)
Shutdown(x) == [x EXCEPT !.p.gone = TRUE, !.p.up = FALSE]
Put(x, c, tk) ==
    LET due == Split > 0 /\ now >= x.op + Split
        wr == IF M("loselast") /\ due THEN x.fs ELSE W(x.fs, tk.id)
        wr2 == IF M("rotdup") /\ due THEN W(Rotated(W(x.fs, tk.id)), tk.id) ELSE IF due THEN Rotated(wr) ELSE wr
    IN [x EXCEPT !.fs = wr2, !.op = IF due /\ ~M("rotagain") THEN now ELSE @]
Reply(x, r) == [x EXCEPT !.p.out = Append(@, r)]
One(x, c, tk) ==
    LET x1 == [x EXCEPT !.p.pos = @ + 1, !.p.buf = @ - tk.n]
    IN CASE tk.k = "data" -> IF x.p.st = "data" \/ (M("recnostart") /\ x.p.st = "start") \/ (M("recstop") /\ x.p.st = "stopped")
                             THEN Put(x1, c, tk) ELSE IF M("noclose") THEN x1 ELSE Shutdown(x1)
         [] tk.k = "ready" /\ x.p.st = "ready" /\ (Ours(tk.cts) \/ M("nomatch")) -> [Reply(x1, "A") EXCEPT !.p.st = "start"]
         [] tk.k = "start" /\ x.p.st = "start" /\ (Ours(tk.cts) \/ M("nomatch2")) -> [x1 EXCEPT !.p.st = "data"]
         [] tk.k = "start" /\ x.p.st = "data" /\ M("restart") -> x1
         [] tk.k = "stop" /\ x.p.st = "data" -> IF M("finish2") THEN [Reply(Reply(x1, "F"), "F") EXCEPT !.p.st = "stopped"]
                                                ELSE [Reply(x1, "F") EXCEPT !.p.st = "stopped"]
         [] OTHER -> IF M("noclose") /\ tk.k = "bad" THEN x1 ELSE Shutdown(x1)
RECURSIVE Loop(_, _, _)
Loop(x, c, toks) ==
    IF x.p.gone \/ x.p.buf = 0 \/ x.p.pos > Len(toks) THEN x
    ELSE LET tk == toks[x.p.pos]
         IN IF x.p.skip > 0
            THEN LET k == IF x.p.skip < x.p.buf THEN x.p.skip ELSE x.p.buf
                     y == [x EXCEPT !.p.skip = @ - k, !.p.buf = @ - k]
                 IN Loop(IF y.p.skip = 0 THEN [y EXCEPT !.p.pos = @ + (IF M("skipnext") THEN 2 ELSE 1)] ELSE y, c, toks)
            ELSE IF tk.k = "len" THEN (IF x.p.buf >= tk.n THEN Shutdown(x) ELSE x)
            ELSE IF x.p.buf < tk.n
                 THEN IF tk.k = "data" /\ (tk.n > Buf \/ (M("overoff") /\ tk.n = Buf)) /\ ~(M("overwait") /\ x.p.buf = Buf)
                      THEN Loop([x EXCEPT !.p.skip = tk.n], c, toks) ELSE x
            ELSE Loop(One(x, c, tk), c, toks)

(* ---- the program ------------------------------------------------------ *)
Busy == phase = "run" /\ going
Up(c) == pc[c].up
Listening == MaxC = 0 \/ mon = FALSE
Accept == /\ Busy /\ Listening
          /\ \E c \in DOMAIN cl : /\ ~pc[c].up /\ ~pc[c].gone /\ \A d \in 1..(c - 1) : pc[d].up \/ pc[d].gone
                                  /\ pc' = [pc EXCEPT ![c].up = TRUE]
          /\ slots' = slots - 1
          /\ mon' = IF slots - 1 = 0 /\ ~M("acceptall") THEN TRUE ELSE mon
          /\ UNCHANGED <<o, phase, h, now, opn, sigs, cl, files, going>>
Freed(c, p2) == \* slots and listener after connection c changed to p2
    IF p2.gone /\ ~(M("leakslot") /\ p2.st = "ready")
    THEN /\ slots' = slots + 1 /\ mon' = IF slots + 1 = 1 /\ ~M("norelisten") THEN FALSE ELSE mon
    ELSE UNCHANGED <<slots, mon>>
Gone(c, p2, cls) == IF p2.gone THEN [cls EXCEPT ![c].closed = TRUE] ELSE cls
Read == /\ Busy
        /\ \E c \in DOMAIN cl : /\ Up(c) /\ cl[c].kq > 0 /\ pc[c].buf < Buf
               /\ LET k == IF cl[c].kq < Buf - pc[c].buf THEN cl[c].kq ELSE Buf - pc[c].buf
                      x == Loop([p |-> [pc[c] EXCEPT !.buf = @ + k], fs |-> files, op |-> opn], c, Toks(c))
                  IN /\ pc' = [pc EXCEPT ![c] = x.p] /\ files' = x.fs /\ opn' = x.op
                     /\ cl' = Gone(c, x.p, [cl EXCEPT ![c].kq = @ - k])
                     /\ Freed(c, x.p)
        /\ UNCHANGED <<o, phase, h, now, sigs, going>>
Flush == /\ Busy
         /\ \E c \in DOMAIN cl : /\ Up(c) /\ pc[c].out # <<>>
                /\ LET p2 == [pc[c] EXCEPT !.out = <<>>, !.gone = pc[c].st = "stopped" \/ cl[c].shut = "fin", !.up = ~(pc[c].st = "stopped" \/ cl[c].shut = "fin")]
                   IN /\ pc' = [pc EXCEPT ![c] = p2]
                      /\ cl' = Gone(c, p2, [cl EXCEPT ![c].rep = IF cl[c].shut = "fin" THEN @ ELSE @ \o pc[c].out])
                      /\ Freed(c, p2)
         /\ UNCHANGED <<o, phase, h, now, opn, sigs, files, going>>
Eof == /\ Busy
       /\ \E c \in DOMAIN cl : /\ Up(c) /\ cl[c].kq = 0 /\ cl[c].shut # "open"
              /\ LET p2 == [pc[c] EXCEPT !.gone = TRUE, !.up = FALSE]
                 IN /\ pc' = [pc EXCEPT ![c] = p2] /\ cl' = Gone(c, p2, cl) /\ Freed(c, p2)
       /\ UNCHANGED <<o, phase, h, now, opn, sigs, files, going>>
Signal == /\ Busy
          /\ \/ /\ "usr1" \in sigs /\ ~Std /\ files' = Rotated(files) /\ opn' = now
                /\ sigs' = sigs \ {"usr1"} /\ UNCHANGED going
             \/ /\ "usr1" \in sigs /\ Std /\ sigs' = sigs \ {"usr1"} /\ UNCHANGED <<files, opn, going>>
             \/ /\ "hup" \in sigs /\ files' = IF M("hupnop") THEN files ELSE [files EXCEPT ![Len(files)].fl = Len(files[Len(files)].us)]
                /\ sigs' = sigs \ {"hup"} /\ UNCHANGED <<opn, going>>
             \/ /\ "term" \in sigs /\ sigs' = sigs \ {"term"} /\ UNCHANGED <<files, opn>>
                /\ going' = FALSE
          /\ UNCHANGED <<o, phase, h, now, cl, pc, slots, mon>>
(* the loop ends *)
Size(us) == Sum([i \in DOMAIN us |-> IF us[i] < 0 THEN (IF us[i] = STOPu THEN 12 ELSE 2)
                                     ELSE LET c == us[i] \div 10000 IN Toks(c)[CHOOSE j \in DOMAIN Toks(c) : Toks(c)[j].id = us[i]].n])
Stored(us) == \* what fits
    LET n == CHOOSE k \in 0..Len(us) : Size(SubSeq(us, 1, k)) <= Lim /\ (k = Len(us) \/ Size(SubSeq(us, 1, k + 1)) > Lim)
    IN [us |-> SubSeq(us, 1, n), tail |-> n < Len(us) /\ Size(SubSeq(us, 1, n)) < Lim, cand |-> IF n < Len(us) THEN <<us[n + 1]>> ELSE <<>>]
Shown(f) == Stored(SubSeq(f.us, 1, f.fl))
Exit == /\ phase = "run" /\ ~going
        /\ LET fs == IF M("termnostop") THEN files ELSE Closed(files)
               fails == \E i \in DOMAIN fs : Size(fs[i].us) > Lim
               o1 == CapStep(o, [e |-> "exit", rc |-> IF fails /\ ~M("rcok") THEN 1 ELSE 0])
           IN o' = CapStep(o1, [e |-> "files", fs |-> [i \in DOMAIN fs |-> Shown(fs[i])], how |-> "end"])
        /\ phase' = "exit"
        /\ UNCHANGED <<h, now, opn, sigs, cl, pc, slots, files, going, mon>>
Quiet == Busy /\ ~ENABLED Accept /\ ~ENABLED Read /\ ~ENABLED Flush /\ ~ENABLED Eof /\ ~ENABLED Signal
Idle == /\ Quiet
        /\ LET o1 == CapStep(o, IdleEv(cl, pc, files, opn))
               hup == "hup" \in o.sigs
           IN o' = IF hup THEN CapStep(o1, [e |-> "files", fs |-> [i \in DOMAIN files |-> Shown(files[i])], how |-> "flush"]) ELSE o1
        /\ phase' = "drv" /\ going' = FALSE
        /\ UNCHANGED <<h, now, opn, sigs, cl, pc, slots, files, mon>>

(* In "drv" going is FALSE: the program waits. *)
Next == Conn \/ Tx \/ Shut \/ Sig \/ Clock \/ Go \/ Accept \/ Read \/ Flush \/ Eof \/ Signal \/ Exit \/ Idle
Spec == Init /\ [][Next]_vars
NoBad == o.bad = {}
(* After a run the program is idle or gone, never stuck: Idle or Exit is always reached. *)
Emit == ~Gen \/ phase # "exit" \/ PrintT("SCRIPT " \o ToJson([cl |-> [i \in DOMAIN cl |-> cl[i].name], h |-> h]))
=============================================================================
