------------------------------ MODULE IoDesign ------------------------------
(***************************************************************************)
(* The reader and writer as state machines, one action per transport       *)
(* operation, over a transport and a peer that may do anything at any      *)
(* point. The observer of IoRules watches; NoBad is the conjunction of     *)
(* W01-W03, R01-R03, S01, S02 and S04 for this design.                     *)
(*                                                                         *)
(* With Gen = TRUE the variable hist collects what was called and what the *)
(* environment did, in order to replay the behaviour in the real code.     *)
(***************************************************************************)
EXTENDS IoRules, Json
CONSTANTS Role, Bi, NCts, MaxOps, MaxOpens, MaxReads, Gen, Mutation

A == <<97>>  B == <<98>>  C == <<99>>
OwnCts == SubSeq(<<A, B>>, 1, NCts)
cfg == [role |-> Role, bi |-> Bi, cts |-> OwnCts, max |-> <<0, 512>>]
M(m) == Mutation = m

VARIABLES st,    \* opening opened closing closed failed gone
          tr,    \* transport open (rdwr->opened)
          pc, op, arg, acc, nops, nopens, nreads, o, hist
vars == <<st, tr, pc, op, arg, acc, nops, nopens, nreads, o, hist>>

Ctl(type, cts) == [k |-> "ctl", p |-> Payload(type, cts), id |-> 0, len |-> <<0, 0>>]
Junk(p) == [k |-> "ctl", p |-> p, id |-> 0, len |-> <<0, 0>>]
DataF(i, n) == [k |-> "data", p |-> <<>>, id |-> i, len |-> <<0, n>>]
BigCtl == [k |-> "junk", p |-> <<>>, id |-> 0, len |-> <<0, 0>>]

HsFrames(t) ==   \* what a peer may send where a frame of type t is expected
    {Ctl(t, <<>>), Ctl(t, <<A>>), Ctl(t, <<B>>), Ctl(t, <<C>>),
     Ctl(IF t = STOP THEN START ELSE STOP, <<>>), Junk(<<0, 0, 0, 9>>), BigCtl, DataF(1, 4)}
    \cup (IF t \in {ACCEPT, READY} THEN {Ctl(t, <<C, A>>), Ctl(t, <<B, A>>)} ELSE {})
    \cup (IF t = START THEN {Junk(Payload(START, <<A, A>>))} ELSE {})
StreamFrames ==  \* what a peer may send in the data section
    {DataF(1, 4), DataF(2, 512), DataF(3, 513), Ctl(STOP, <<>>), Ctl(READY, <<A>>), Ctl(START, <<B>>),
     Junk(<<0, 0, 0, 9, 1>>), Junk(<<0, 0, 0>>), Junk(Payload(STOP, <<A>>)), BigCtl}

EvR(f) == CASE f.k = "ctl" -> [e |-> "r", k |-> "ctl", p |-> f.p]
            [] f.k = "junk" -> [e |-> "r", k |-> "junk"]
            [] f.k = "data" -> [e |-> "r", k |-> "data", id |-> f.id, len |-> f.len]
EvsR(f, whole) ==
    IF f.k = "data" THEN <<[e |-> "rh", len |-> f.len]>> \o (IF whole THEN <<EvR(f)>> ELSE <<>>) ELSE <<EvR(f)>>
EvW(t, cts) == [e |-> "w", k |-> "ctl", p |-> Payload(t, cts)]
EvD(i) == [e |-> "w", k |-> "data", id |-> i]
EvRet(res) == [e |-> "ret", res |-> res, id |-> 0, len |-> <<0, 0>>, type |-> 0, cts |-> <<>>]
TC(res) == [e |-> "tclose", res |-> res]
RF(res) == [e |-> "rfail", res |-> res, over |-> FALSE, hdr |-> FALSE]

(* History of the environment: the last connection is being extended. *)
H0 == [ops |-> <<>>, conns |-> <<>>]
HOp(x, a) == IF Gen THEN hist' = [hist EXCEPT !.ops = Append(@, <<x, a>>)] ELSE UNCHANGED hist
HNew(ok) == IF Gen THEN hist' = [hist EXCEPT !.conns = Append(@, [open |-> ok, close |-> "ok", in |-> <<>>, inend |-> "none", out |-> <<>>, wfail |-> FALSE])]
            ELSE UNCHANGED hist
HSet(f, v) == IF Gen THEN hist' = [hist EXCEPT !.conns[Len(hist.conns)][f] = v] ELSE UNCHANGED hist
HAdd(f, v) == IF Gen THEN hist' = [hist EXCEPT !.conns[Len(hist.conns)][f] = Append(@, v)] ELSE UNCHANGED hist

Sees(es) == o' = IoSteps(cfg, o, es)
(* The current call returns. *)
Return(es, r) == Sees(es \o <<EvRet(r)>>) /\ pc' = "idle" /\ op' = "none"
ReturnX(es, ret) == Sees(es \o <<ret>>) /\ pc' = "idle" /\ op' = "none"
Stay == UNCHANGED <<nops, nopens, nreads>>

Init == st = "opening" /\ tr = FALSE /\ pc = "idle" /\ op = "none" /\ arg = <<>> /\ acc = <<>>
        /\ nops = 0 /\ nopens = 0 /\ nreads = 0 /\ o = IoInit /\ hist = H0

Ops == IF Role = "w"
       THEN {<<"open", <<>>>>, <<"close", <<>>>>, <<"write", <<1>>>>, <<"write", <<1, 2>>>>, <<"write", <<1, -1>>>>}
            \cup {<<"get", <<t>>>> : t \in {ACCEPT, START, STOP, FINISH}}
       ELSE {<<"open", <<>>>>, <<"close", <<>>>>, <<"read", <<>>>>}
            \cup {<<"get", <<t>>>> : t \in {ACCEPT, START, STOP}}

NoTr == ~tr   \* the transport layer refuses I/O while it is closed

Call == /\ pc = "idle" /\ st # "gone"
        /\ \E c \in (IF nops < MaxOps THEN Ops ELSE {}) \cup {<<"destroy", <<>>>>} :
             /\ op' = c[1] /\ arg' = c[2]
             /\ Sees(<<[e |-> "call", op |-> c[1], a |-> c[2]]>>)
             /\ HOp(c[1], c[2])
             /\ nops' = nops + 1
             /\ pc' = "go"
        /\ UNCHANGED <<st, tr, acc, nopens, nreads>>

(* Entry of each call. *)
Opens == op = "open" \/ (op \in {"write", "get", "read"} /\ st = "opening")
Refuse1 == /\ Return(<<>>, "fail") /\ UNCHANGED <<st, tr, arg, acc, hist>> /\ Stay
Go(next) == pc' = next /\ UNCHANGED <<st, tr, op, arg, acc, o, hist>> /\ Stay
Enter ==
    /\ pc = "go"
    /\ IF op = "open" /\ st = "opened" /\ Role = "w" THEN Return(<<>>, "ok") /\ UNCHANGED <<st, tr, arg, acc, hist>> /\ Stay
       ELSE IF op = "open" /\ st \in {"opened", "closing"} /\ ~M("reopen") THEN Refuse1
       ELSE IF op = "write" /\ ~Valid(cfg, arg) /\ ~M("zerolen") THEN Refuse1
       ELSE IF Opens THEN Go("topen")
       ELSE IF op = "write" THEN
            IF st = "opened" \/ M("writeclosed") THEN Go("write") ELSE Refuse1
       ELSE IF op = "read" THEN
            IF st = "opened" \/ (M("readfailed") /\ st = "failed") THEN Go("read")
            ELSE IF st = "closed" THEN Return(<<>>, "stop") /\ UNCHANGED <<st, tr, arg, acc, hist>> /\ Stay
            ELSE Refuse1
       ELSE IF op = "get" THEN Go("get")
       ELSE IF st \in {"opened", "closing"} THEN Go("bye")
       ELSE IF op = "close" THEN Refuse1
       ELSE Go("gone")

(* Opening. *)
TOpen ==
    /\ pc = "topen" /\ nopens < MaxOpens
    /\ nopens' = nopens + 1 /\ UNCHANGED <<nops, nreads, arg, acc>>
    /\ \/ /\ tr' = TRUE /\ Sees(<<[e |-> "topen", res |-> "ok"]>>) /\ HNew("ok") /\ UNCHANGED <<st, op>>
          /\ pc' = IF Role = "w" THEN IF Bi THEN "wready" ELSE "wstart" ELSE IF Bi THEN "rready" ELSE "rstart"
       \/ /\ Return(<<[e |-> "topen", res |-> "fail"]>>, "fail") /\ HNew("fail") /\ UNCHANGED <<st, tr>>
(* With no attempts left the environment lets every open fail. *)
TOpenLast ==
    /\ pc = "topen" /\ nopens >= MaxOpens
    /\ Return(<<[e |-> "topen", res |-> "fail"]>>, "fail") /\ HNew("fail") /\ UNCHANGED <<st, tr, arg, acc>> /\ Stay

Hang == IF M("leaveopen") THEN <<>> ELSE <<TC("ok")>>       \* the failure path closes the transport
AbortOpen(es) == /\ Return(es \o Hang, "fail") /\ tr' = M("leaveopen") /\ UNCHANGED <<st, arg, acc>> /\ Stay
WFail(es) == es \o <<[e |-> "wfail"]>>
(* A write of one control frame: succeeds and continues at next, or fails. *)
WriteCtl(t, cs, next) ==
    \/ /\ Sees(<<EvW(t, cs)>>) /\ HAdd("out", [k |-> "ctl", p |-> Payload(t, cs), id |-> 0, len |-> <<0, 0>>])
       /\ pc' = next /\ UNCHANGED <<op, tr, st, arg, acc>> /\ Stay
    \/ AbortOpen(WFail(<<>>)) /\ HSet("wfail", TRUE)

WReady == pc = "wready" /\ WriteCtl(READY, IF M("readyone") THEN Head1(OwnCts) ELSE OwnCts, "waccept")
ReadFail == \E r \in {"fail", "stop"} : AbortOpen(<<RF(r)>>) /\ HSet("inend", r)
WAccept ==
    /\ pc = "waccept"
    /\ \/ \E f \in HsFrames(ACCEPT) :
            /\ HAdd("in", f)
            /\ LET d == IF f.k = "ctl" THEN DecodePayload(f.p) ELSE Bad
                   ok == IF M("noaccept") THEN TRUE ELSE d.ok /\ d.type = ACCEPT
                   m == FirstMatch(cfg, ACCEPT, d.cts)
                   yes == ok /\ (OwnCts = <<>> \/ (IF M("firstonly") THEN m = 1 ELSE IF M("anymatch") THEN TRUE ELSE m # 0))
               IN IF yes
                  THEN /\ Sees(EvsR(f, TRUE)) /\ acc' = IF OwnCts = <<>> \/ m = 0 THEN <<>> ELSE <<OwnCts[m]>>
                       /\ pc' = "wstart" /\ UNCHANGED <<op, tr, st, arg>> /\ Stay
                  ELSE AbortOpen(EvsR(f, FALSE))
       \/ ReadFail
WStart ==
    /\ pc = "wstart"
    /\ \/ /\ Sees(<<EvW(START, IF Bi /\ ~M("startfirst") THEN acc ELSE Head1(OwnCts))>>)
          /\ HAdd("out", [k |-> "ctl", p |-> Payload(START, IF Bi THEN acc ELSE Head1(OwnCts)), id |-> 0, len |-> <<0, 0>>])
          /\ st' = "opened" /\ pc' = "done" /\ UNCHANGED <<op, tr, arg, acc>> /\ Stay
       \/ AbortOpen(WFail(<<>>)) /\ HSet("wfail", TRUE)

RReady ==
    /\ pc = "rready"
    /\ \/ \E f \in HsFrames(READY) :
            /\ HAdd("in", f)
            /\ LET d == IF f.k = "ctl" THEN DecodePayload(f.p) ELSE Bad
               IN IF d.ok /\ d.type = READY
                  THEN /\ Sees(EvsR(f, TRUE)) /\ acc' = IF M("acceptall") THEN OwnCts ELSE OwnMatching(cfg, d.cts)
                       /\ pc' = "raccept" /\ UNCHANGED <<op, tr, st, arg>> /\ Stay
                  ELSE AbortOpen(EvsR(f, FALSE))
       \/ ReadFail
RAccept == pc = "raccept" /\ WriteCtl(ACCEPT, acc, "rstart")
RStart ==
    /\ pc = "rstart"
    /\ \/ \E f \in HsFrames(START) :
            /\ HAdd("in", f)
            /\ LET d == IF f.k = "ctl" THEN DecodePayload(f.p) ELSE Bad
               IN IF d.ok /\ d.type = START /\ (Acceptable(cfg, START, d.cts) \/ M("anystart"))
                  THEN /\ Sees(EvsR(f, TRUE)) /\ st' = "opened" /\ pc' = "done" /\ UNCHANGED <<op, tr, arg, acc>> /\ Stay
                  ELSE AbortOpen(EvsR(f, FALSE))
       \/ ReadFail

Opened ==
    /\ pc = "done"
    /\ IF op = "open" THEN Return(<<>>, "ok") /\ UNCHANGED <<st, tr, arg, acc, hist>> /\ Stay
       ELSE Go(op)

(* Writing: any prefix of the frames, then success or failure. *)
Write ==
    /\ pc = "write"
    /\ IF NoTr THEN (IF M("writeclosed") THEN Return(<<EvD(1)>>, "ok") ELSE Return(<<>>, "fail")) /\ UNCHANGED <<st, tr, arg, acc, hist>> /\ Stay
       ELSE LET fs == IF M("dup") /\ Len(arg) = 2 THEN <<arg[1], arg[1]>> ELSE arg
                evs == [i \in 1..Len(fs) |-> EvD(fs[i])]
            IN \/ /\ Return(evs, "ok")
                  /\ IF Gen THEN hist' = [hist EXCEPT !.conns[Len(hist.conns)].out = @ \o [i \in 1..Len(fs) |-> DataF(fs[i], 4)]] ELSE UNCHANGED hist
                  /\ UNCHANGED <<st, tr, arg, acc>> /\ Stay
               \/ \E k \in 0..(Len(fs) - 1) :
                    /\ Return(WFail(SubSeq(evs, 1, k)) \o <<TC("ok")>>, "fail")
                    /\ IF Gen THEN hist' = [hist EXCEPT !.conns[Len(hist.conns)].out = @ \o [i \in 1..k |-> DataF(fs[i], 4)],
                                                        !.conns[Len(hist.conns)].wfail = TRUE] ELSE UNCHANGED hist
                    /\ tr' = FALSE /\ UNCHANGED <<st, arg, acc>> /\ Stay

(* Reading: one frame of the stream per step. *)
Deliver(f) == [EvRet("ok") EXCEPT !.id = f.id, !.len = f.len]
FailRead(es, r) == /\ Return(es \o <<TC("ok")>>, r) /\ st' = "failed" /\ tr' = FALSE /\ UNCHANGED <<arg, acc>>
Read ==
    /\ pc = "read" /\ nreads < MaxReads /\ nreads' = nreads + 1 /\ UNCHANGED <<nops, nopens>>
    /\ IF NoTr THEN Return(<<>>, "fail") /\ UNCHANGED <<st, tr, arg, acc, hist>>
       ELSE \/ \E f \in StreamFrames :
                 /\ HAdd("in", f)
                 /\ LET d == IF f.k = "ctl" THEN DecodePayload(f.p) ELSE Bad
                    IN IF f.k = "data"
                       THEN IF LE(f.len, cfg.max) \/ M("nomax")
                            THEN ReturnX(EvsR(f, TRUE), Deliver(f)) /\ UNCHANGED <<st, tr, arg, acc>>
                            ELSE FailRead(EvsR(f, FALSE), IF M("bigok") THEN "ok" ELSE "fail")
                       ELSE IF f.k = "ctl" /\ UnknownType(f.p) /\ ~M("nofwd")
                       THEN Sees(EvsR(f, TRUE)) /\ UNCHANGED <<st, tr, pc, op, arg, acc>>
                       ELSE IF ~d.ok THEN FailRead(EvsR(f, TRUE), "fail")
                       ELSE IF d.type = STOP
                       THEN Return(EvsR(f, TRUE), "stop") /\ st' = "closing" /\ UNCHANGED <<tr, arg, acc>>
                       ELSE Sees(EvsR(f, TRUE)) /\ UNCHANGED <<st, tr, pc, op, arg, acc>>
            \/ \E r \in {"fail", "stop"} : FailRead(<<RF(r)>>, r) /\ HSet("inend", r)
ReadLast ==
    /\ pc = "read" /\ nreads >= MaxReads /\ Stay
    /\ IF NoTr THEN Return(<<>>, "fail") /\ UNCHANGED <<st, tr, arg, acc, hist>>
       ELSE FailRead(<<RF("stop")>>, "stop") /\ HSet("inend", "stop")

Get ==
    /\ pc = "get"
    /\ LET t == arg[1]
           q == Query(cfg, arg) /\ (o.sess[KindOf(t)] # NoCt \/ M("getnull") \/ (M("stale") /\ KindOf(t) \in o.ever))
           c == o.sess[KindOf(t)]
           cs == IF c = NoCt THEN <<>> ELSE c[1]
       IN ReturnX(<<>>, IF q THEN [EvRet("ok") EXCEPT !.type = t, !.cts = cs] ELSE EvRet("fail"))
    /\ UNCHANGED <<st, tr, arg, acc, hist>> /\ Stay

(* Closing (also by destroy). *)
EndCall(es, r, next) ==
    IF op = "destroy" THEN Sees(es) /\ pc' = "gone" /\ UNCHANGED op
    ELSE Return(es, r)
Bye ==
    /\ pc = "bye"
    /\ st' = "closed"
    /\ IF Role = "r" /\ ~Bi
       THEN /\ pc' = "tclose" /\ UNCHANGED <<tr, op, arg, acc, o, hist>> /\ Stay
       ELSE LET f == IF Role = "w" THEN STOP ELSE FINISH
            IN IF NoTr THEN EndCall(<<>>, "fail", "x") /\ UNCHANGED <<tr, arg, acc, hist>> /\ Stay
               ELSE \/ /\ Sees(IF M("nostop") THEN <<>> ELSE <<EvW(f, <<>>)>>)
                       /\ HAdd("out", [k |-> "ctl", p |-> Payload(f, <<>>), id |-> 0, len |-> <<0, 0>>])
                       /\ pc' = IF Role = "w" /\ Bi THEN "wfinish" ELSE "tclose"
                       /\ UNCHANGED <<tr, op, arg, acc>> /\ Stay
                    \/ /\ EndCall(<<[e |-> "wfail"], TC("ok")>>, "fail", "x") /\ HSet("wfail", TRUE)
                       /\ tr' = FALSE /\ UNCHANGED <<arg, acc>> /\ Stay
WFinish ==
    /\ pc = "wfinish" /\ UNCHANGED <<st, arg, acc>> /\ Stay
    /\ \/ \E f \in HsFrames(FINISH) :
            /\ HAdd("in", f)
            /\ LET d == IF f.k = "ctl" THEN DecodePayload(f.p) ELSE Bad
               IN IF (d.ok /\ d.type = FINISH) \/ M("anyfinish")
                  THEN Sees(EvsR(f, TRUE)) /\ pc' = "tclose" /\ UNCHANGED <<tr, op>>
                  ELSE EndCall(EvsR(f, FALSE) \o <<TC("ok")>>, "fail", "x") /\ tr' = FALSE
       \/ \E r \in {"fail", "stop"} :
            EndCall(<<RF(r), TC("ok")>>, "fail", "x") /\ tr' = FALSE /\ HSet("inend", r)
TClose ==
    /\ pc = "tclose" /\ UNCHANGED <<st, arg, acc>> /\ Stay
    /\ IF NoTr THEN EndCall(<<>>, "ok", "x") /\ UNCHANGED <<tr, hist>>
       ELSE \E r \in {"ok", "fail"} : EndCall(<<TC(r)>>, IF M("closeok") THEN "ok" ELSE r, "x") /\ tr' = FALSE /\ HSet("close", r)
Gone ==
    /\ pc = "gone"
    /\ Return(<<[e |-> "tdestroy"]>>, "ok") /\ st' = "gone" /\ UNCHANGED <<tr, arg, acc, hist>> /\ Stay

Next == Call \/ Enter \/ TOpen \/ TOpenLast \/ WReady \/ WAccept \/ WStart \/ RReady \/ RAccept \/ RStart
        \/ Opened \/ Write \/ Read \/ ReadLast \/ Get \/ Bye \/ WFinish \/ TClose \/ Gone
Spec == Init /\ [][Next]_vars
NoBad == o.bad = {}
NoStuck == ENABLED Next \/ st = "gone"      \* no call can get stuck
(* Generation: print the script of every finished behaviour. *)
Emit == (Gen /\ st = "gone") => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
