-------------------------------- MODULE Sock --------------------------------
(***************************************************************************)
(* A socket writer on a kernel that accepts and delivers any number of     *)
(* bytes per system call, interrupts calls and fails them, under every     *)
(* sequence of API calls; observed by SockRules. A call is carried out as  *)
(* a list of steps; a unit of the stream has Size bytes.                   *)
(***************************************************************************)
EXTENDS SockRules, Json
CONSTANTS NOps, MaxFail, Size, Gen, Mutation
M(m) == Mutation = m

VARIABLES todo, iov, need, fd, nfd, ops, fails, ids, o, h
vars == <<todo, iov, need, fd, nfd, ops, fails, ids, o, h>>
(* todo: steps left of the current call; iov: <<unit, bytes left>> still to *)
(* send; need: bytes still to read; fd: the connected descriptor or 0;     *)
(* hst: the handle state is o.h (the observer follows the API)             *)
See(es) == o' = LET F[i \in 0..Len(es)] == IF i = 0 THEN o ELSE SockStep(F[i-1], es[i]) IN F[Len(es)]
Rec(x) == h' = IF Gen THEN Append(h, x) ELSE h
Units(us) == [i \in 1..Len(us) |-> <<us[i], Size>>]

Init == todo = <<>> /\ iov = <<>> /\ need = 0 /\ fd = 0 /\ nfd = 0 /\ ops = NOps /\ fails = 0 /\ ids = 0 /\ o = SockInit /\ h = <<>>

OpenSteps == <<"socket", "connect", "ready", "send", "accept", "recv", "start", "send">>
Begin(op, us, steps) ==
    /\ todo' = steps \o <<"ok">>
    /\ See(<<[e |-> "call", op |-> op, ids |-> us]>>)
    /\ UNCHANGED <<need, fd, nfd, fails>>
Call ==
    /\ todo = <<>> /\ ops > 0 /\ o.h # "gone" /\ ops' = ops - 1
    /\ \/ /\ o.h \in {"no", "closed"} /\ Begin("o", <<>>, OpenSteps) /\ Rec("o") /\ iov' = iov /\ UNCHANGED ids
       \/ \E n \in 1..2 :
            LET us == [i \in 1..n |-> ids + i] IN
            /\ o.h \in {"no", "open"} /\ ids' = ids + n
            /\ Begin("w", us, (IF o.h = "no" THEN OpenSteps ELSE <<>>) \o <<"data", "send">>)
            /\ iov' = <<>> /\ Rec("w" \o ToString(n))
       \/ /\ o.h = "open" /\ Begin("c", <<>>, <<"stop", "send", "finish", "recv", "close">>) /\ Rec("c") /\ iov' = iov /\ UNCHANGED ids
       \/ /\ o.h = "broken" /\ Begin("c", <<>>, <<>>) /\ Rec("c") /\ iov' = iov /\ UNCHANGED ids

Pop == todo' = Tail(todo)
Abort == todo' = <<"close", "fail">>
Same == UNCHANGED <<ops, ids>>
Load(us) == iov' = Units(us) /\ Pop /\ UNCHANGED <<need, fd, nfd, fails, o, h>> /\ Same
MayFail == fails < MaxFail /\ fails' = fails + 1

Kernel ==
    /\ todo # <<>>
    /\ LET s == Head(todo) IN
       \/ /\ s = "socket"
          /\ \/ /\ nfd' = nfd + 1 /\ fd' = nfd + 1 /\ Pop /\ See(<<[e |-> "socket", fd |-> nfd + 1], [e |-> "cloexec", fd |-> nfd + 1, on |-> ~M("inherit")]>>) /\ Rec("S") /\ UNCHANGED fails
             \/ /\ MayFail /\ See(<<[e |-> "nosock", weak |-> FALSE]>>) /\ todo' = <<"fail">> /\ Rec("Se") /\ UNCHANGED <<nfd, fd>>
          /\ UNCHANGED <<iov, need>> /\ Same
       \/ /\ s = "connect"
          /\ \/ /\ Pop /\ See(<<[e |-> "connect", fd |-> fd, addr |-> TRUE, ok |-> TRUE]>>) /\ UNCHANGED <<fails, h>>
             \/ /\ MayFail /\ See(<<[e |-> "connect", fd |-> fd, addr |-> TRUE, ok |-> FALSE]>>) /\ Rec("Ce")
                /\ IF M("leakconn") THEN todo' = <<"fail">> ELSE Abort
          /\ UNCHANGED <<iov, need, fd, nfd>> /\ Same
       \/ s = "ready" /\ Load(<<READYu>>)
       \/ s = "start" /\ Load(<<STARTu>>)
       \/ s = "stop" /\ Load(<<STOPu>>)
       \/ s = "data" /\ Load(o.pend)
       \/ /\ s = "send"
          /\ \/ \E k \in 1..(Len(iov) * Size) :
                  LET total == LET T[i \in 0..Len(iov)] == IF i = 0 THEN 0 ELSE T[i-1] + iov[i][2] IN T[Len(iov)]
                      Cum == LET T[i \in 0..Len(iov)] == IF i = 0 THEN 0 ELSE T[i-1] + iov[i][2] IN T
                      done == {i \in 1..Len(iov) : Cum[i] <= k}
                      n == Cardinality(done)
                      rest == SubSeq(iov, n + 1, Len(iov))
                      rest1 == IF rest = <<>> \/ k = Cum[n] THEN rest ELSE <<<<rest[1][1], rest[1][2] - (k - Cum[n])>>>> \o Tail(rest)
                      \* the units completed are whole only if no byte was skipped or repeated
                      seen == IF n = 0 THEN <<>> ELSE <<[e |-> "units", us |-> [i \in 1..n |-> iov[i][1]]]>>
                  IN /\ k <= total
                     /\ See(<<[e |-> "snd", fd |-> fd, nosig |-> ~M("sigpipe"), res |-> "ok"]>> \o seen)
                     /\ Rec(<<n, IF rest1 = rest THEN 0 ELSE 1>>)
                     /\ IF M("resend") /\ rest # <<>> THEN iov' = iov /\ UNCHANGED todo
                        ELSE IF M("skip") /\ rest # rest1 /\ Len(rest) > 1 THEN iov' = Tail(rest) /\ UNCHANGED todo
                        ELSE IF M("short") \/ rest = <<>> THEN Pop /\ iov' = <<>>
                        ELSE iov' = rest1 /\ UNCHANGED todo
                     /\ UNCHANGED fails
             \/ /\ See(<<[e |-> "snd", fd |-> fd, nosig |-> TRUE, res |-> "intr"]>>) /\ ~Gen
                /\ UNCHANGED <<iov, fails, h>> /\ IF M("eintr") THEN Abort ELSE UNCHANGED todo
             \/ /\ MayFail /\ See(<<[e |-> "snd", fd |-> fd, nosig |-> TRUE, res |-> "err"]>>) /\ Rec("e")
                /\ IF M("ignore") THEN Pop ELSE IF M("keepopen") THEN todo' = <<"fail">> ELSE Abort
                /\ UNCHANGED iov
          /\ UNCHANGED <<need, fd, nfd>> /\ Same
       \/ /\ s \in {"accept", "finish"} /\ need' = Size /\ Pop /\ UNCHANGED <<iov, fd, nfd, fails, o, h>> /\ Same
       \/ /\ s = "recv"
          /\ \/ \E k \in 1..need :
                  /\ See(<<[e |-> "rcv", fd |-> fd, res |-> "ok"]>>) /\ Rec(<<"r", IF k = need THEN 0 ELSE 1>>)
                  /\ need' = need - k
                  /\ IF k = need \/ M("shortread") THEN Pop ELSE UNCHANGED todo
                  /\ UNCHANGED fails
             \/ /\ ~Gen /\ See(<<[e |-> "rcv", fd |-> fd, res |-> "intr"]>>) /\ UNCHANGED <<need, fails, h>>
                /\ IF M("eintrread") THEN Abort ELSE UNCHANGED todo
             \/ /\ MayFail /\ \E r \in {"err", "eof"} : See(<<[e |-> "rcv", fd |-> fd, res |-> r]>>) /\ Rec(r)
                /\ IF M("eofok") THEN Pop ELSE Abort
                /\ UNCHANGED need
          /\ UNCHANGED <<iov, fd, nfd>> /\ Same
       \/ /\ s = "close"
          /\ \/ See(<<[e |-> "close", fd |-> fd, ok |-> TRUE]>>) /\ Pop /\ UNCHANGED <<fails, h>>
             \/ MayFail /\ See(<<[e |-> "close", fd |-> fd, ok |-> FALSE]>>) /\ Rec("xe")
                /\ todo' = IF M("closetwice") THEN <<"close", "fail">> ELSE <<"fail">>
          /\ UNCHANGED <<iov, need, fd, nfd>> /\ Same
       \/ /\ s \in {"ok", "fail"}
          \* partial units and the bytes consumed, as the environment saw them
          /\ LET tl == iov # <<>> /\ iov[1][2] < Size
             IN See(<<[e |-> "ret", ok |-> s = "ok", tail |-> tl, cand |-> IF tl THEN <<iov[1][1]>> ELSE <<>>,
                       used |-> IF need # 0 THEN "mid" ELSE IF o.op = "c" THEN "finish" ELSE "accept"]>>)
          /\ todo' = <<>> /\ iov' = <<>> /\ need' = 0
          /\ UNCHANGED <<fd, nfd, fails, h>> /\ Same
Next == Call \/ Kernel
Spec == Init /\ [][Next]_vars
NoBad == o.bad = {}
Emit == (Gen /\ todo = <<>> /\ ops = 0) => PrintT("SCRIPT " \o ToJson([h |-> h]))
=============================================================================
