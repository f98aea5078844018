----------------------------- MODULE CmdRules ------------------------------
(***************************************************************************)
(* What the command lines of fstrm_capture, fstrm_replay and fstrm_dump    *)
(* mean (U01). A line is a sequence of items [o, sp, v]: an option (or     *)
(* "word", a word that belongs to no option, or "unknown", an option that  *)
(* does not exist), its spelling ("short" -x V, "long" --name V, "eq"      *)
(* --name=V, "abbr" a documented abbreviation, "missing": the value is not *)
(* there) and its value. The meaning does not depend on spelling or order. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Flags == {"help", "debug", "localtime", "gmtime"}
Multi == {"read", "debug", "word", "unknown"}
Sizes == <<40, 100, 300000>>      \* data frames (with their length field) sent to fstrm_capture
DefaultBuffer == 262144
Step == 10                        \* seconds that pass before one more frame
Clients == 3                      \* that connect to it at the same time

Vals(items, o) == LET S == SelectSeq(items, LAMBDA i : i.o = o) IN [k \in DOMAIN S |-> S[k].v]
Has(items, o) == Vals(items, o) # <<>>
Val(items, o) == Vals(items, o)[1]
Num(items, o) == IF Has(items, o) THEN Val(items, o) ELSE 0
Broken(items) == \E i \in DOMAIN items : items[i].o = "unknown" \/ items[i].sp = "missing"
Twice(items) == \E o \in {items[i].o : i \in DOMAIN items} : o \notin Multi /\ Len(Vals(items, o)) > 1

(* --- usable or not: "refuse", "run", or "free" where the text does not say --- *)
BadTcp(items) == \/ ~Has(items, "port")
                 \/ Val(items, "port") = "bad" /\ Len(Vals(items, "port")) = 1
                 \/ Val(items, "tcp") = "bad" /\ Len(Vals(items, "tcp")) = 1
CaptureUse(items) ==
    IF \/ Broken(items) \/ Has(items, "word") \/ Has(items, "help")
       \/ ~Has(items, "type") \/ ~Has(items, "write")
       \/ ~Has(items, "unix") /\ ~Has(items, "tcp")
       \/ Has(items, "tcp") /\ ~Has(items, "unix") /\ BadTcp(items)
    THEN "refuse"
    ELSE IF Twice(items) \/ (Has(items, "unix") /\ Has(items, "tcp")) THEN "free"
    ELSE IF \/ Has(items, "unix") /\ Val(items, "unix") = "long"
            \/ Val(items, "write") = "tty"
            \/ Val(items, "write") = "std" /\ Num(items, "split") > 0
            \/ Has(items, "localtime") /\ Has(items, "gmtime")
            \/ Num(items, "split") > 0 /\ ~Has(items, "localtime") /\ ~Has(items, "gmtime")
    THEN "refuse" ELSE "run"
ReplayUse(items) ==
    IF \/ Broken(items) \/ Has(items, "word") \/ Has(items, "help")
       \/ ~Has(items, "type") \/ ~Has(items, "read")
       \/ Has(items, "unix") = Has(items, "tcp")
       \/ Has(items, "tcp") /\ BadTcp(items)
    THEN "refuse"
    ELSE IF Twice(items) THEN "free"
    ELSE IF Has(items, "unix") /\ Val(items, "unix") = "long" THEN "refuse"
    ELSE "run"
DumpUse(items) == IF Len(Vals(items, "word")) \in {1, 2} THEN "run" ELSE "refuse"
Use(prog, items) == CASE prog = "capture" -> CaptureUse(items) [] prog = "replay" -> ReplayUse(items) [] prog = "dump" -> DumpUse(items)

(* --- what a usable line makes the program do --- *)
Capture(items) ==
    LET b == IF Num(items, "buffersize") > 0 THEN Num(items, "buffersize") ELSE DefaultBuffer
        c == Num(items, "maxconns")
    IN [at |-> IF Has(items, "unix") THEN "unix" ELSE "tcp",
        ct |-> Val(items, "type"),
        name |-> IF Val(items, "write") = "std" THEN "std" ELSE IF Has(items, "localtime") THEN "local" ELSE IF Has(items, "gmtime") THEN "utc" ELSE "plain",
        stored |-> SelectSeq(Sizes, LAMBDA x : x <= b),
        served |-> IF c > 0 /\ c < Clients THEN c ELSE Clients,
        files |-> IF Num(items, "split") \in 1..Step THEN 2 ELSE 1]
\* files 1..3 are of content type A, 4 of content type B, 5 does not exist
Replay(items) ==
    [at |-> IF Has(items, "unix") THEN "unix" ELSE "tcp",
     ct |-> Val(items, "type"),
     sent |-> SelectSeq(Vals(items, "read"), LAMBDA f : f \in IF Val(items, "type") = "A" THEN 1..3 ELSE {4})]
\* word 1 is the input, word 2 the copy
Dump(items) == [shown |-> TRUE, copied |-> Len(Vals(items, "word")) = 2]
Does(prog, items) == CASE prog = "capture" -> Capture(items) [] prog = "replay" -> Replay(items) [] prog = "dump" -> Dump(items)

CmdInit == [prog |-> "", items |-> <<>>, bad |-> {}]
F(o, cond) == IF cond THEN o ELSE [o EXCEPT !.bad = {"U01"}]
CmdStep(o, e) ==
    CASE e.e = "cmd" -> [o EXCEPT !.prog = e.prog, !.items = e.items]
      \* ended by itself without having done anything; touched: a file, a socket or a peer was
      [] e.e = "refused" -> F(o, Use(o.prog, o.items) # "run" /\ ~e.touched /\ (e.rc # 0 \/ Has(o.items, "help")))
      [] e.e = "ran" -> F(o, Use(o.prog, o.items) = "free" \/ (Use(o.prog, o.items) = "run" /\ e.did = Does(o.prog, o.items) /\ e.rc = 0))
      [] OTHER -> F(o, FALSE)
=============================================================================
