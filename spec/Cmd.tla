-------------------------------- MODULE Cmd --------------------------------
(***************************************************************************)
(* Design of the command line reader: words are taken one at a time; an    *)
(* option that needs a value waits in a queue for the next word that is no *)
(* option; when all words are read, the values are checked. The observer   *)
(* of CmdRules judges the outcome by the items the words came from.        *)
(***************************************************************************)
EXTENDS CmdRules, Json
CONSTANTS Prog, MaxItems, Opts, Spell, Gen, Mutation   \* Opts = {}: all options

I(o, v) == {[o |-> o, sp |-> s, v |-> v] : s \in Spell}
L(o) == {[o |-> o, sp |-> "long", v |-> 0]}
All ==
    IF Prog = "capture" THEN
        I("type", "A") \cup I("type", "B") \cup I("unix", "ok") \cup I("unix", "long") \cup I("tcp", "ok") \cup I("tcp", "bad") \cup I("port", "ok") \cup I("port", "bad")
        \cup I("write", "file") \cup I("write", "std") \cup I("split", 10) \cup I("split", 0) \cup I("maxconns", 1) \cup I("buffersize", 64)
        \cup L("localtime") \cup L("gmtime") \cup L("help") \cup L("debug") \cup L("unknown") \cup {[o |-> "word", sp |-> "short", v |-> "x"]}
    ELSE IF Prog = "replay" THEN
        I("type", "A") \cup I("type", "B") \cup I("unix", "ok") \cup I("tcp", "ok") \cup I("port", "ok") \cup I("port", "bad") \cup I("read", 1) \cup I("read", 2) \cup I("read", 4)
        \cup L("help") \cup L("unknown") \cup {[o |-> "word", sp |-> "short", v |-> "x"]}
    ELSE {[o |-> "word", sp |-> "short", v |-> x] : x \in {"a", "b"}}

Alphabet == {i \in All : Opts = {} \/ i.o \in Opts}

VARIABLES items, words, queue, got, err, st, o
vars == <<items, words, queue, got, err, st, o>>
\* words: [k: "opt", o, eq, v] or [k: "val", v]
Render(i) == IF i.o = "word" THEN <<[k |-> "val", v |-> i.v]>>
             ELSE IF i.o \in Flags \cup {"unknown"} THEN <<[k |-> "opt", o |-> i.o, eq |-> FALSE, v |-> 0]>>
             ELSE CASE i.sp = "eq" -> <<[k |-> "opt", o |-> i.o, eq |-> TRUE, v |-> i.v]>>
                    [] i.sp = "missing" -> <<[k |-> "opt", o |-> i.o, eq |-> FALSE, v |-> 0]>>
                    [] OTHER -> <<[k |-> "opt", o |-> i.o, eq |-> FALSE, v |-> 0], [k |-> "val", v |-> i.v]>>

Init == items = <<>> /\ words = <<>> /\ queue = <<>> /\ got = <<>> /\ err = FALSE /\ st = "read" /\ o = CmdInit
\* a value can only be missing at the very end: elsewhere the next word takes its place
Take == /\ st = "read" /\ words = <<>> /\ Len(items) < MaxItems
        /\ (items # <<>> => items[Len(items)].sp # "missing")
        /\ \E i \in Alphabet : items' = Append(items, i) /\ words' = Render(i)
        /\ UNCHANGED <<queue, got, err, st, o>>
Set(s, n, v) == Append(s, [o |-> n, sp |-> "short", v |-> v])
Word == /\ st = "read" /\ words # <<>> /\ words' = Tail(words)
        /\ LET w == Head(words) IN
           IF w.k = "opt" THEN
              IF w.o = "unknown" THEN err' = (err \/ Mutation # "lenient") /\ UNCHANGED <<queue, got>>
              ELSE IF w.o \in Flags THEN got' = Set(got, w.o, 0) /\ UNCHANGED <<queue, err>>
              ELSE IF w.eq THEN (IF Mutation = "noeq" THEN queue' = Append(queue, w.o) /\ UNCHANGED got ELSE got' = Set(got, w.o, w.v) /\ UNCHANGED queue) /\ UNCHANGED err
              ELSE queue' = Append(queue, w.o) /\ UNCHANGED <<got, err>>
           ELSE IF queue # <<>> THEN got' = Set(got, Head(queue), w.v) /\ queue' = Tail(queue) /\ UNCHANGED err
           ELSE got' = Set(got, "word", w.v) /\ err' = (err \/ (Prog # "dump" /\ Mutation # "words")) /\ UNCHANGED queue
        /\ UNCHANGED <<items, st, o>>

H(n) == Has(got, n)
V(n) == Val(got, n)
Xor == IF Mutation = "noxor" THEN H("unix") \/ H("tcp") ELSE H("unix") # H("tcp")
PortOk == (H("port") \/ Mutation = "noport") /\ (~H("port") \/ V("port") = "ok" \/ Mutation = "anyport")
Valid ==
    /\ ~err /\ (queue = <<>> \/ Mutation = "nomissing") /\ ~H("help")
    /\ \A n \in {got[k].o : k \in DOMAIN got} : n \in Multi \/ Len(Vals(got, n)) = 1
    /\ CASE Prog = "capture" ->
              /\ (H("type") \/ Mutation = "notype") /\ H("write") /\ (H("unix") \/ H("tcp"))
              /\ H("tcp") /\ ~H("unix") => PortOk /\ V("tcp") = "ok"
              /\ H("unix") => V("unix") = "ok"
              /\ (V("write") = "std" /\ Mutation # "stdsplit") => Num(got, "split") = 0
              /\ ~(H("localtime") /\ H("gmtime"))
              /\ (Num(got, "split") > 0 /\ Mutation # "splitplain") => H("localtime") \/ H("gmtime")
         [] Prog = "replay" -> H("type") /\ (H("read") \/ Mutation = "noread") /\ Xor /\ (H("tcp") => PortOk /\ V("tcp") = "ok")
         [] OTHER -> H("word") /\ Len(Vals(got, "word")) <= 2
Act == IF Prog = "capture" THEN
          [Capture(got) EXCEPT !.name = IF Mutation = "swap" /\ @ = "utc" THEN "local" ELSE @,
                               !.served = IF Mutation = "nolimit" THEN Clients ELSE @]
       ELSE IF Prog = "replay" THEN [Replay(got) EXCEPT !.sent = IF Mutation = "lastfile" THEN SubSeq(@, IF @ = <<>> THEN 1 ELSE Len(@), Len(@)) ELSE @]
       ELSE Dump(got)
Obs(e) == CmdStep(CmdStep(CmdInit, [e |-> "cmd", prog |-> Prog, items |-> items]), e)
Finish == /\ st = "read" /\ words = <<>>
          /\ st' = "done"
          /\ o' = IF Valid THEN Obs([e |-> "ran", did |-> IF Has(got, "type") \/ Prog = "dump" THEN Act ELSE <<>>, rc |-> 0])
                  ELSE Obs([e |-> "refused", rc |-> 1, touched |-> Mutation = "early" /\ H("unix") /\ H("write")])
          /\ UNCHANGED <<items, words, queue, got, err>>
Next == Take \/ Word \/ Finish
Spec == Init /\ [][Next]_vars
NoBad == o.bad = {}
Emit == (Gen /\ st = "done") => PrintT("SCRIPT " \o ToJson(items))
=============================================================================
