-------------------------------- MODULE Pair --------------------------------
(***************************************************************************)
(* A writer and a reader joined by two bounded channels of frames: the     *)
(* whole protocol of a session, for every pair of configurations, observed *)
(* by PairRules. Deadlock freedom: TLC's deadlock check plus Ends.         *)
(***************************************************************************)
EXTENDS PairRules, Json
CONSTANTS Cts, MaxCts, NW, Cap, Sessions, Gen, Mutation
M(m) == Mutation = m
Lists == UNION {[1..n -> Cts] : n \in 0..MaxCts}

VARIABLES cfg, wr, rd,      \* channels writer -> reader and back: [q, wopen, ropen]
          wp, rp,           \* program counters
          wn, left,         \* next frame id, write calls left
          acc, sel, got,    \* ACCEPT received, START sent, READY received
          ses, o, h
vars == <<cfg, wr, rd, wp, rp, wn, left, acc, sel, got, ses, o, h>>
Chan == [q |-> <<>>, wopen |-> TRUE, ropen |-> TRUE]
See(e) == o' = PairStep(cfg, o, e)
SeeAll(es) == o' = LET F[i \in 0..Len(es)] == IF i = 0 THEN o ELSE PairStep(cfg, F[i-1], es[i]) IN F[Len(es)]
Rec(x) == h' = IF Gen THEN Append(h, x) ELSE h

Init == /\ cfg \in [w : Lists, r : Lists, bi : BOOLEAN]
        /\ wr = Chan /\ rd = Chan /\ wp = "start" /\ rp = "start" /\ wn = 0 /\ left = NW
        /\ acc = <<>> /\ sel = <<>> /\ got = <<>> /\ ses = 1 /\ o = PairInit /\ h = <<>>

Send(c, f) == Len(c.q) < Cap /\ c' = [c EXCEPT !.q = Append(@, f)]
Matching(cs) == LET Keep(x) == cs = <<>> \/ x \in Range(cs) IN SelectSeq(cfg.r, Keep)

\* the writer
WFail(next) == wr' = [wr EXCEPT !.wopen = FALSE] /\ rd' = [rd EXCEPT !.ropen = FALSE] /\ wp' = next
WU == UNCHANGED <<cfg, rp, got, ses>>
Writer ==
    \/ /\ wp = "start" /\ cfg.bi
       /\ IF wr.ropen THEN Send(wr, [k |-> "ready", cts |-> cfg.w]) /\ wp' = "accept" /\ UNCHANGED <<rd, o>>
          ELSE WFail("done") /\ See([e |-> "wo", ok |-> FALSE])
       /\ UNCHANGED <<wn, left, acc, sel, h>> /\ WU
    \/ /\ wp = "start" /\ ~cfg.bi /\ wp' = "choose" /\ acc' = <<>>
       /\ UNCHANGED <<wr, rd, wn, left, sel, o, h>> /\ WU
    \/ /\ wp = "accept"
       /\ \/ /\ rd.q # <<>>
             /\ IF rd.q[1].k = "accept"
                THEN rd' = [rd EXCEPT !.q = Tail(@)] /\ acc' = rd.q[1].cts /\ wp' = "choose" /\ UNCHANGED <<wr, o>>
                ELSE WFail("done") /\ See([e |-> "wo", ok |-> FALSE]) /\ UNCHANGED acc
          \/ /\ rd.q = <<>> /\ ~rd.wopen /\ WFail("done") /\ See([e |-> "wo", ok |-> FALSE]) /\ UNCHANGED acc
       /\ UNCHANGED <<wn, left, sel, h>> /\ WU
    \/ /\ wp = "choose"
       /\ LET ok(x) == acc = <<>> \/ x \in Range(acc)
              m == IF cfg.bi THEN SelectSeq(cfg.w, ok) ELSE cfg.w
          IN IF (cfg.w # <<>> /\ m = <<>>) \/ ~wr.ropen
             THEN WFail("done") /\ See([e |-> "wo", ok |-> FALSE]) /\ UNCHANGED sel
             ELSE /\ sel' = (IF m = <<>> THEN <<>> ELSE IF M("lastct") THEN <<m[Len(m)]>> ELSE IF M("ownct") THEN <<cfg.w[1]>> ELSE <<m[1]>>)
                  /\ Send(wr, [k |-> "start", cts |-> sel'])
                  /\ SeeAll(<<[e |-> "wo", ok |-> TRUE], [e |-> "wg", ok |-> TRUE, cts |-> sel']>>)
                  /\ wp' = "open" /\ UNCHANGED rd
       /\ UNCHANGED <<wn, left, acc, h>> /\ WU
    \/ /\ wp = "open" /\ left > 0
       /\ \E n \in 1..2 :
            /\ left' = left - 1 /\ Rec(n)
            /\ See([e |-> "wcall", ids |-> [i \in 1..n |-> wn + i]])
            /\ wp' = (IF n = 1 THEN "w1" ELSE "w2") /\ UNCHANGED <<wr, rd, wn>>
       /\ UNCHANGED <<acc, sel>> /\ WU
    \/ /\ wp \in {"w1", "w2"}
       /\ IF ~wr.ropen THEN WFail("failed") /\ See([e |-> "wret", ok |-> FALSE]) /\ UNCHANGED wn
          ELSE /\ Send(wr, [k |-> "data", id |-> wn + 1]) /\ wn' = wn + 1 /\ UNCHANGED rd
               /\ IF wp = "w1" THEN wp' = "open" /\ See([e |-> "wret", ok |-> TRUE])
                  ELSE wp' = "w1" /\ UNCHANGED o
       /\ UNCHANGED <<left, acc, sel, h>> /\ WU
    \/ /\ wp = "open" /\ See([e |-> "wx"]) /\ wp' = "stop"
       /\ UNCHANGED <<wr, rd, wn, left, acc, sel, h>> /\ WU
    \/ /\ wp = "stop"
       /\ IF ~wr.ropen THEN WFail("done") /\ See([e |-> "wc", ok |-> FALSE])
          ELSE IF M("nostop") THEN WFail("done") /\ See([e |-> "wc", ok |-> TRUE])
          ELSE /\ Send(wr, [k |-> "stop"]) /\ wp' = (IF cfg.bi THEN "finish" ELSE "close") /\ UNCHANGED <<rd, o>>
       /\ UNCHANGED <<wn, left, acc, sel, h>> /\ WU
    \/ /\ wp = "finish"
       /\ \/ /\ rd.q # <<>> /\ rd' = [rd EXCEPT !.q = Tail(@)] /\ wp' = "close" /\ UNCHANGED <<wr, o>>
          \/ /\ rd.q = <<>> /\ ~rd.wopen /\ WFail("done") /\ See([e |-> "wc", ok |-> FALSE])
       /\ UNCHANGED <<wn, left, acc, sel, h>> /\ WU
    \/ /\ wp = "close" /\ WFail("done") /\ See([e |-> "wc", ok |-> TRUE])
       /\ UNCHANGED <<wn, left, acc, sel, h>> /\ WU
    \/ /\ wp = "failed" /\ wp' = "done" /\ See([e |-> "wc", ok |-> FALSE])
       /\ UNCHANGED <<wr, rd, wn, left, acc, sel, h>> /\ WU

\* the reader
RU == UNCHANGED <<cfg, wp, wn, left, acc, sel, ses, h>>
RShut == wr' = [wr EXCEPT !.ropen = FALSE] /\ rd' = [rd EXCEPT !.wopen = FALSE]
RFail == RShut /\ rp' = "done" /\ See([e |-> "ro", ok |-> FALSE])
Eof == wr.q = <<>> /\ ~wr.wopen
Take == wr' = [wr EXCEPT !.q = Tail(@)]
Reader ==
    \/ /\ rp = "start" /\ ~cfg.bi /\ rp' = "wstart" /\ UNCHANGED <<wr, rd, got, o>> /\ RU
    \/ /\ rp = "start" /\ cfg.bi
       /\ IF Eof THEN RFail /\ UNCHANGED got
          ELSE wr.q # <<>> /\ Take /\ got' = wr.q[1].cts /\ rp' = (IF M("mute") THEN "wstart" ELSE "accept") /\ UNCHANGED <<rd, o>>
       /\ RU
    \/ /\ rp = "accept"
       /\ IF ~rd.ropen THEN RFail
          ELSE Send(rd, [k |-> "accept", cts |-> IF M("echo") THEN got ELSE Matching(got)])
               /\ rp' = "wstart" /\ UNCHANGED <<wr, o>>
       /\ UNCHANGED got /\ RU
    \/ /\ rp = "wstart"
       /\ IF Eof THEN RFail
          ELSE /\ wr.q # <<>>
               /\ LET s == wr.q[1].cts
                      ok == cfg.r = <<>> \/ s = <<>> \/ s[1] \in Range(cfg.r) \/ M("any")
                  IN IF ~ok THEN RFail
                     ELSE Take /\ rp' = "open" /\ SeeAll(<<[e |-> "ro", ok |-> TRUE], [e |-> "rg", ok |-> TRUE, cts |-> s]>>) /\ UNCHANGED rd
       /\ UNCHANGED got /\ RU
    \/ /\ rp = "open"
       /\ IF Eof THEN rp' = "gone" /\ See([e |-> "rr", res |-> "fail", id |-> 0]) /\ UNCHANGED <<wr, rd>>
          ELSE /\ wr.q # <<>> /\ Take /\ UNCHANGED rd
               /\ IF wr.q[1].k = "stop" THEN See([e |-> "rr", res |-> "stop", id |-> 0]) /\ rp' = "ended"
                  ELSE See([e |-> "rr", res |-> "ok", id |-> wr.q[1].id]) /\ rp' = "open"
       /\ UNCHANGED got /\ RU
    \/ /\ rp = "ended"
       /\ IF cfg.bi /\ ~M("nofinish")
          THEN IF ~rd.ropen THEN RShut /\ rp' = "done" /\ See([e |-> "rc", ok |-> FALSE])
               ELSE Send(rd, [k |-> "finish"]) /\ rp' = "close" /\ UNCHANGED <<wr, o>>
          ELSE RShut /\ rp' = "done" /\ See([e |-> "rc", ok |-> TRUE])
       /\ UNCHANGED got /\ RU
    \/ /\ rp = "close" /\ RShut /\ rp' = "done" /\ See([e |-> "rc", ok |-> TRUE]) /\ UNCHANGED got /\ RU
    \/ /\ rp = "gone" /\ RShut /\ rp' = "done" /\ See([e |-> "rc", ok |-> FALSE]) /\ UNCHANGED got /\ RU

Over == wp = "done" /\ rp = "done"
Again == /\ Over /\ ses < Sessions /\ ses' = ses + 1
         /\ wr' = Chan /\ rd' = Chan /\ wp' = "start" /\ rp' = "start" /\ left' = NW
         /\ SeeAll(<<[e |-> "over"], [e |-> "sess"]>>) /\ Rec(0)
         /\ UNCHANGED <<cfg, wn, acc, sel, got>>
Finish == /\ Over /\ ses = Sessions /\ ses' = ses + 1 /\ See([e |-> "over"])
          /\ UNCHANGED <<cfg, wr, rd, wp, rp, wn, left, acc, sel, got, h>>
Idle == ses > Sessions /\ UNCHANGED vars
Next == Writer \/ Reader \/ Again \/ Finish \/ Idle
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Writer \/ Reader \/ Again \/ Finish)
NoBad == o.bad = {}
Ends == <>(ses > Sessions)
Emit == (Gen /\ ses > Sessions) => PrintT("SCRIPT " \o ToJson([cfg |-> cfg, batches |-> h]))
=============================================================================
