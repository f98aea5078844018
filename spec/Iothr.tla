-------------------------------- MODULE Iothr --------------------------------
(***************************************************************************)
(* The I/O thread, its producers and the thread that destroys it, over a   *)
(* transport that may fail or block at any operation. One action per step  *)
(* that is atomic for the others; time advances in units of Unit ms when   *)
(* the I/O thread waits or is blocked. The observer of IothrRules watches: *)
(* NoBad is the conjunction of I01-I07 for this design.                    *)
(***************************************************************************)
EXTENDS IothrRules, Json
CONSTANTS NP,        \* producers, one input queue each (or one shared queue)
          Shared, NSub, IQ, OQ, BH, FT, RI, NT, Bi, MaxOpens, MaxT, Unit, Block, Gen, Mutation

M(m) == Mutation = m
Prods == 1..NP
NQ == IF Shared THEN 1 ELSE NP
Queues == 1..NQ
QOf(p) == IF Shared THEN 1 ELSE p
Size == 100          \* every frame; 104 bytes in the stream
cfg == [oq |-> OQ, bh |-> BH, ft |-> FT, iq |-> IQ, nq |-> NQ, ri |-> RI, bi |-> Bi, t0 |-> 0]

VARIABLES now, q, ppc, pn, pres,           \* producers: program counter, frames submitted, result
          io, cont, i, cnt, ent, outq, opened, tr, last, dl, have, sig,     \* the I/O thread
          mp, down, opens, blocked, o, hist
vars == <<now, q, ppc, pn, pres, io, cont, i, cnt, ent, outq, opened, tr, last, dl, have, sig, mp, down, opens, blocked, o, hist>>
pv == <<ppc, pn, pres>>
iov == <<i, cnt, ent, outq, opened, tr, last, dl, have>>

RECURSIVE Steps(_, _)
Steps(ob, es) == IF es = <<>> THEN ob ELSE Steps(IothrStep(cfg, ob, Head(es)), Tail(es))
Sees(es) == o' = Steps(o, es)
Ev(k) == [e |-> k, t |-> now]
Fr(x) == [e |-> "fr", t |-> now, id |-> x, ok |-> TRUE]
D(x) == [e |-> "d", t |-> now, id |-> x]
Seqs(f(_), s) == [k \in 1..Len(s) |-> f(s[k])]

NW == Cardinality(o.wrote)
H0 == [prods |-> [p \in Prods |-> <<>>], conns |-> <<>>, dt |-> 0]
HProd(p, x) == IF Gen THEN [hist EXCEPT !.prods[p] = Append(@, <<x, now>>)] ELSE hist
HConn(c) == IF Gen THEN [hist EXCEPT !.conns = Append(@, c)] ELSE hist
HFail(n) == IF Gen /\ hist.conns # <<>> THEN [hist EXCEPT !.conns[Len(hist.conns)].wf = n] ELSE hist

Init == /\ now = 0 /\ q = [x \in Queues |-> <<>>]
        /\ ppc = [p \in Prods |-> "idle"] /\ pn = [p \in Prods |-> 0] /\ pres = [p \in Prods |-> 0]
        /\ io = "first" /\ cont = "" /\ i = 0 /\ cnt = 0 /\ ent = 0 /\ outq = <<>> /\ opened = FALSE /\ tr = FALSE
        /\ last = -(RI * 1000) /\ dl = 0 /\ have = FALSE /\ sig = FALSE
        /\ mp = "run" /\ down = FALSE /\ opens = 0 /\ blocked = FALSE /\ hist = H0
        /\ o = Steps(IothrInit(cfg), <<[e |-> "init", t |-> 0, ok |-> TRUE]>> \o [k \in 1..NQ |-> [e |-> "gx", t |-> 0, idx |-> k - 1, h |-> k]])

(* --- producers --- *)
Fid(p) == (p - 1) * NSub + pn[p]
PCall(p) ==
    /\ ppc[p] = "idle" /\ pn[p] < NSub /\ mp \in {"run", "join"} /\ now < MaxT
    /\ ppc' = [ppc EXCEPT ![p] = "chk"] /\ pn' = [pn EXCEPT ![p] = @ + 1]
    /\ Sees(<<[e |-> "sc", t |-> now, id |-> Fid(p) + 1, q |-> QOf(p), len |-> Size, kind |-> 1]>>)
    /\ hist' = HProd(p, "s")
    /\ UNCHANGED <<now, q, pres, io, cont, iov, sig, mp, down, opens, blocked>>
PChk(p) ==
    /\ ppc[p] = "chk"
    /\ IF down THEN pres' = [pres EXCEPT ![p] = Failure] /\ ppc' = [ppc EXCEPT ![p] = "ret"]
       ELSE ppc' = [ppc EXCEPT ![p] = "ins"] /\ UNCHANGED pres
    /\ UNCHANGED <<now, q, pn, io, cont, iov, sig, mp, down, opens, blocked, o, hist>>
PIns(p) ==
    /\ ppc[p] = "ins"
    /\ LET x == Fid(p)
           full == Len(q[QOf(p)]) >= (IF M("overfull") THEN IQ ELSE IF M("short") THEN IQ - 2 ELSE IQ - 1)
       IN IF full /\ ~M("blocking") THEN pres' = [pres EXCEPT ![p] = Again] /\ UNCHANGED <<q, sig>>
          ELSE /\ ~full
               /\ q' = [q EXCEPT ![QOf(p)] = IF M("lifo") THEN <<x>> \o @ ELSE Append(@, x)]
               /\ pres' = [pres EXCEPT ![p] = Success]
               /\ sig' = IF IQ - 1 - Len(q'[QOf(p)]) = NT /\ io = "wait" THEN TRUE ELSE sig
    /\ ppc' = [ppc EXCEPT ![p] = "ret"]
    /\ UNCHANGED <<now, pn, io, cont, iov, mp, down, opens, blocked, o, hist>>
PRet(p) ==
    /\ ppc[p] = "ret" /\ ppc' = [ppc EXCEPT ![p] = "idle"]
    /\ Sees(<<[e |-> "sr", t |-> now, id |-> Fid(p), res |-> pres[p]]>> \o (IF M("freerefused") /\ pres[p] = Again THEN <<Fr(Fid(p))>> ELSE <<>>))
    /\ UNCHANGED <<now, q, pn, pres, io, cont, iov, sig, mp, down, opens, blocked, hist>>

(* --- the I/O thread --- *)
Env == <<now, q, pv, mp, down>>
Due == now \div 1000 - (IF M("interval") THEN last \div 1000 - 1 ELSE last \div 1000) >= RI
Go(pc) == io' = pc
Top ==
    /\ io \in {"first", "top"}
    /\ IF io = "top" /\ down THEN Go(IF M("nodrain") THEN "flush" ELSE "proc") /\ cont' = "bye" /\ i' = 1 /\ cnt' = 0 /\ UNCHANGED <<last, opens, o>>
       ELSE IF ~opened /\ Due /\ opens < MaxOpens /\ ~(M("noretry") /\ opens > 0)
       THEN /\ Go("opening") /\ last' = now /\ opens' = opens + 1 /\ Sees(<<Ev("to")>>) /\ UNCHANGED <<cont, i, cnt>>
       ELSE /\ Go("proc") /\ i' = 1 /\ cnt' = 0 /\ cont' = "" /\ UNCHANGED <<last, opens, o>>
    /\ UNCHANGED <<Env, ent, outq, opened, tr, dl, have, sig, blocked, hist>>
Opening ==
    /\ io = "opening" /\ i' = 1 /\ cnt' = 0 /\ cont' = "" /\ Go("proc")
    /\ \E r \in {"ok", "refused", "nostart"} :
         /\ Sees(IF r = "refused" THEN <<[e |-> "te", t |-> now, ok |-> FALSE, fin |-> TRUE]>>
                 ELSE <<[e |-> "te", t |-> now, ok |-> TRUE, fin |-> TRUE]>> \o
                      (IF r = "ok" THEN <<[e |-> "c", t |-> now, type |-> START]>> ELSE <<Ev("wf"), [e |-> "tc", t |-> now]>>))
         /\ opened' = (r = "ok") /\ tr' = (r = "ok")
         /\ hist' = HConn([ok |-> r # "refused", wf |-> IF r = "nostart" THEN -2 ELSE -1, nw |-> NW])
    /\ UNCHANGED <<Env, ent, outq, last, dl, have, sig, opens, blocked>>

(* One pass over the queues, then the decision of what to do. *)
Proc ==
    /\ io = "proc" /\ i <= NQ
    /\ IF q[i] = <<>> THEN i' = i + 1 /\ UNCHANGED <<q, cnt, ent, outq, io, o>>
       ELSE LET x == Head(q[i]) IN
            /\ q' = [q EXCEPT ![i] = Tail(@)] /\ i' = i + 1 /\ cnt' = cnt + 1
            /\ IF ~opened THEN /\ (IF M("leak") THEN UNCHANGED o ELSE Sees(<<Fr(x)>>)) /\ UNCHANGED <<ent, outq, io>>
               ELSE IF outq # <<>> /\ (Len(outq) >= OQ + (IF M("overbatch") THEN 1 ELSE 0)
                                       \/ (Len(outq) + 1) * (Size + 4) >= BH + (IF M("overhint") THEN Size ELSE 0))
               THEN /\ ent' = x /\ Go("flush") /\ UNCHANGED <<outq, o>>
               ELSE /\ outq' = Append(outq, x) /\ UNCHANGED <<ent, io, o>>
    /\ UNCHANGED <<now, pv, mp, down, cont, opened, tr, last, dl, have, sig, opens, blocked, hist>>
ProcEnd ==
    /\ io = "proc" /\ i > NQ
    /\ IF cnt > 0 THEN (IF cont = "bye" THEN Go("proc") /\ i' = 1 /\ cnt' = 0 ELSE Go("top") /\ UNCHANGED <<i, cnt>>) /\ UNCHANGED <<dl, have>>
       ELSE IF cont = "bye" THEN Go("flush") /\ UNCHANGED <<i, cnt, dl, have>>
       ELSE /\ Go("wait") /\ UNCHANGED <<i, cnt>>
            /\ IF have THEN UNCHANGED <<dl, have>> ELSE dl' = now + FT * 1000 /\ have' = (outq # <<>> /\ ~M("defer"))
    /\ UNCHANGED <<Env, cont, ent, outq, opened, tr, last, sig, opens, blocked, o, hist>>
Wait ==
    /\ io = "wait"
    /\ \/ now < dl /\ Go("top") /\ UNCHANGED <<have, cont>>        \* signal or spurious wakeup
       \/ now >= dl /\ Go("flush") /\ cont' = "timeout" /\ UNCHANGED have
    /\ sig' = FALSE
    /\ UNCHANGED <<Env, i, cnt, ent, outq, opened, tr, last, dl, opens, blocked, o, hist>>

(* Write the batch; the transport may fail within any frame, or block for a while first. *)
Stall == /\ Block /\ io = "flush" /\ opened /\ outq # <<>> /\ ~blocked /\ blocked' = TRUE /\ Sees(<<Ev("bb")>>)
         /\ UNCHANGED <<Env, io, cont, iov, sig, opens, hist>>
Flush ==
    /\ io = "flush"
    /\ LET n == Len(outq)
           pre == (IF blocked THEN <<Ev("be")>> ELSE <<>>) \o (IF M("freefirst") THEN Seqs(Fr, outq) ELSE <<>>)
                  \o <<[e |-> "wb", t |-> now, ids |-> outq]>>
           wv == [e |-> "wv", t |-> now, n |-> n, bytes |-> n * (Size + 4)]
       IN IF opened /\ n > 0 /\ ~(M("noflush") /\ cont = "bye")
          THEN \/ /\ Sees(pre \o Seqs(D, IF M("dup") THEN Append(outq, outq[n]) ELSE outq) \o <<wv>>)
                  /\ UNCHANGED <<opened, tr, hist>>
               \/ \E k \in 0..(n - 1) :
                    /\ Sees(pre \o Seqs(D, SubSeq(outq, 1, k)) \o <<Ev("wf"), wv, [e |-> "tc", t |-> now]>>)
                    /\ opened' = FALSE /\ tr' = FALSE /\ hist' = HFail(NW + k)
          ELSE UNCHANGED <<opened, tr, o, hist>>
    /\ blocked' = FALSE /\ Go("free")
    /\ UNCHANGED <<Env, cont, i, cnt, ent, outq, last, dl, have, sig, opens>>
Free ==
    /\ io = "free"
    /\ LET keep == M("keep") /\ ~opened /\ ~down
           n == Len(outq)
       IN /\ Sees(IF M("freefirst") \/ keep \/ (M("leakfail") /\ ~opened) THEN <<>>
                  ELSE Seqs(Fr, IF M("dblfree") /\ n > 1 THEN Append(outq, outq[n]) ELSE outq))
          /\ outq' = (IF keep THEN outq ELSE <<>>) \o (IF ent # 0 THEN <<ent>> ELSE <<>>)
    /\ ent' = 0
    /\ IF ent # 0 THEN Go("proc") /\ UNCHANGED <<have, cont>>
       ELSE IF cont = "bye" THEN Go("close") /\ UNCHANGED <<have, cont>>
       ELSE Go("top") /\ cont' = "" /\ have' = FALSE
    /\ UNCHANGED <<Env, i, cnt, opened, tr, last, dl, sig, opens, blocked, hist>>
Close ==
    /\ io = "close" /\ Go("end")
    /\ IF ~opened THEN UNCHANGED <<o, hist>>
       ELSE \/ Sees((IF M("nostop") THEN <<>> ELSE <<[e |-> "c", t |-> now, type |-> STOP]>>)
                    \o (IF Bi /\ ~M("nofinish") THEN <<Ev("fin")>> ELSE <<>>) \o <<[e |-> "tc", t |-> now]>>) /\ UNCHANGED hist
            \/ Bi /\ Sees(<<[e |-> "c", t |-> now, type |-> STOP], Ev("rx"), [e |-> "tc", t |-> now], [e |-> "fin", t |-> now]>>) /\ UNCHANGED hist
            \/ Sees(<<Ev("wf"), [e |-> "tc", t |-> now]>>) /\ hist' = HFail(NW)
    /\ opened' = FALSE /\ tr' = FALSE
    /\ UNCHANGED <<Env, cont, i, cnt, ent, outq, last, dl, have, sig, opens, blocked>>

(* --- the destroying thread --- *)
Destroy ==
    /\ mp = "run" /\ mp' = "join" /\ down' = TRUE /\ Sees(<<Ev("dc")>>)
    /\ hist' = IF Gen THEN [hist EXCEPT !.dt = now] ELSE hist
    /\ UNCHANGED <<now, q, pv, io, cont, iov, sig, opens, blocked>>
Join ==
    /\ mp = "join" /\ (io = "end" \/ M("nojoin")) /\ \A p \in Prods : ppc[p] = "idle"
    /\ mp' = "gone"
    /\ LET rest == [k \in Queues |-> q[k]]
           all == IF NQ = 1 THEN rest[1] ELSE rest[1] \o rest[2]
       IN Sees(<<Ev("td")>> \o (IF M("leakrest") THEN <<>> ELSE Seqs(Fr, all))
               \o <<[e |-> "dr", t |-> now, alive |-> io # "end", leak |-> FALSE]>>)
    /\ q' = [k \in Queues |-> <<>>]
    /\ UNCHANGED <<now, pv, io, cont, iov, sig, down, opens, blocked, hist>>

(* Time passes when nobody can run: the I/O thread waits or is blocked, no submission is under way.     *)
Tick ==
    /\ now < MaxT
    /\ io \in {"wait", "opening"} \/ blocked \/ (io = "end" /\ mp = "run")
    /\ io = "wait" => (now < dl /\ ~sig)
    /\ \A p \in Prods : ppc[p] = "idle" \/ (M("blocking") /\ ppc[p] = "ins")
    /\ ~down \/ io # "end"
    /\ now' = now + Unit
    /\ UNCHANGED <<q, pv, io, cont, iov, sig, mp, down, opens, blocked, o, hist>>

Next == (\E p \in Prods : PCall(p) \/ PChk(p) \/ PIns(p) \/ PRet(p)) \/ Top \/ Opening \/ Proc \/ ProcEnd \/ Wait
        \/ Stall \/ Flush \/ Free \/ Close \/ Destroy \/ Join \/ Tick
Spec == Init /\ [][Next]_vars
(* Destroying always returns, whatever the transport does (it may block, but not for ever). *)
Fair == Spec /\ WF_vars(Top \/ Opening \/ Proc \/ ProcEnd \/ (Wait /\ now >= dl) \/ Flush \/ Free \/ Close)
             /\ WF_vars(Join) /\ WF_vars(Tick) /\ \A p \in Prods : WF_vars(PChk(p)) /\ WF_vars(PIns(p)) /\ WF_vars(PRet(p))
Returns == down ~> (mp = "gone" \/ now >= MaxT)

(* When attempts are used up or time is over the deadlines no longer count. *)
Timed == {"I03", "I04"}
NoBad == IF opens >= MaxOpens /\ ~opened THEN o.bad \ {"I03"} = {} ELSE o.bad = {}
Emit == (Gen /\ mp = "gone") => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
