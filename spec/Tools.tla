------------------------------- MODULE Tools -------------------------------
(***************************************************************************)
(* fstrm_dump and fstrm_replay as step-by-step programs on a scaled-down   *)
(* format (one-byte words), judged by ToolRules.                           *)
(***************************************************************************)
EXTENDS ToolRules, Json
CONSTANTS Which,     \* "dump", "replay"
          Alphabet, MaxLen,      \* dump: every file of these bytes
          Lims, NFiles, Gen, Mutation
M(m) == Mutation = m

VARIABLES o, pc, in, pos, k, out, lens, cop, lim, copy, nocopy, over, rc,   \* dump; in/pos/k also replay
          fs, recv, rx, more
vars == <<o, pc, in, pos, k, out, lens, cop, lim, copy, nocopy, over, rc, fs, recv, rx, more>>

(* every file; for generated scenarios: files made of these pieces *)
Pieces == {"S", "S0", "Sx", "E", "d", "D", "R", "A", "B", "U", "L", "F", "c", "C", "z"}
Named == {n \in UNION {[1..m -> Pieces] : m \in 1..MaxLen} : \A i \in DOMAIN n : n[i] \in {"c", "C", "z"} => i = Len(n)}
Strings == UNION {{s \in [1..n -> Alphabet] : n <= 4 \/ s[1] = 0} : n \in 0..MaxLen}   \* longer ones: at least an escape
PieceOf(x) == CASE x = "S" -> Encode(START, <<<<7>>>>, TRUE) [] x = "S0" -> Encode(START, <<>>, TRUE) [] x = "Sx" -> Encode(START, <<<<8>>>>, TRUE)
                [] x = "E" -> Encode(STOP, <<>>, TRUE) [] x = "d" -> <<1, 5>> [] x = "D" -> <<2, 0, 6>> [] x = "R" -> Encode(READY, <<<<7>>>>, TRUE)
                [] x = "A" -> Encode(ACCEPT, <<>>, TRUE) [] x = "F" -> Encode(FINISH, <<>>, TRUE)
                [] x = "B" -> <<0, 2, 3, 1>> [] x = "U" -> <<0, 2, 9, 3>> [] x = "L" -> <<0, 9>> [] x = "c" -> <<2, 4>> [] x = "C" -> <<0, 1>> [] x = "z" -> <<0>>
T == 7      \* the content type of interest is <<T>>
E(ty, cts) == Encode(ty, cts, TRUE)
D(x) == <<Len(x)>> \o x
Library ==
    [good |-> E(START, <<<<T>>>>) \o D(<<1>>) \o D(<<2, 3>>) \o E(STOP, <<>>),
     one |-> E(START, <<<<T>>>>) \o D(<<4>>) \o E(STOP, <<>>),
     plain |-> E(START, <<>>) \o D(<<5>>) \o E(STOP, <<>>),
     empty |-> E(START, <<<<T>>>>) \o E(STOP, <<>>),
     other |-> E(START, <<<<8>>>>) \o D(<<6>>) \o E(STOP, <<>>),
     cut |-> E(START, <<<<T>>>>) \o D(<<7>>) \o <<3, 8>>,
     nostop |-> E(START, <<<<T>>>>) \o D(<<9>>),
     badctl |-> E(START, <<<<T>>>>) \o D(<<10>>) \o <<0, 2, 3, 1>> \o D(<<11>>) \o E(STOP, <<>>),
     odd |-> E(START, <<<<T>>>>) \o D(<<12>>) \o E(READY, <<>>) \o D(<<13>>) \o E(STOP, <<>>),
     unk |-> E(START, <<<<T>>>>) \o D(<<17>>) \o <<0, 1, 9>> \o D(<<18>>) \o E(STOP, <<>>),
     more |-> E(START, <<<<T>>>>) \o D(<<14>>) \o E(STOP, <<>>) \o D(<<15>>),
     ready |-> E(READY, <<<<T>>>>) \o D(<<16>>) \o E(STOP, <<>>),
     junk |-> <<1, 2>>,
     nothing |-> <<>>]
Receivers == {"good", "none", "accno", "accbad", "finish", "silent", "nofin", "badfin"} \cup {"close0", "close4", "close9", "refuse"}
Rcv(r) == [acc |-> r \notin {"accno", "accbad", "finish", "silent", "refuse", "close0", "close4"},
           all |-> r \notin {"close0", "close4", "close9", "refuse"},
           fin |-> r \in {"good", "none"}, name |-> r, read |-> CASE r = "close0" \/ r = "refuse" -> 0 [] r = "close4" -> 4 [] r = "close9" -> 9 [] OTHER -> BIG]

Init ==
    /\ o = ToolInit /\ pos = 1 /\ k = 0 /\ out = <<>> /\ lens = <<>> /\ cop = <<>> /\ over = FALSE /\ rc = 1 /\ rx = <<>> /\ more = TRUE
    /\ IF Which = "dump"
       THEN /\ pc = "open" /\ (IF Gen THEN fs \in Named /\ in = Cat([i \in DOMAIN fs |-> PieceOf(fs[i])]) ELSE fs = <<>> /\ in \in Strings) /\ copy \in BOOLEAN /\ lim \in (IF copy THEN Lims ELSE {BIG}) /\ nocopy \in (IF copy THEN BOOLEAN ELSE {FALSE})
            /\ recv = Rcv("good")
       ELSE /\ pc = "connect" /\ in = <<>> /\ copy = FALSE /\ lim = BIG /\ nocopy = FALSE
            /\ \E n \in 0..NFiles : fs \in [1..n -> DOMAIN Library \cup {"absent"}]
            /\ \E r \in Receivers : recv = Rcv(r)

(* ---- the reader: what comes next, from position i of b ---------------- *)
Ctl(b, i) ==    \* a control frame whose escape was read: [ok, type, cts, to]
    IF i > Len(b) THEN [ok |-> FALSE, type |-> 0, cts |-> <<>>, to |-> 0]
    ELSE LET m == b[i]
         IN IF m > MaxPayload \/ m > Len(b) - i THEN [ok |-> FALSE, type |-> 0, cts |-> <<>>, to |-> 0]
            ELSE LET d == DecodePayload(SubSeq(b, i + 1, i + m)) IN [ok |-> d.ok, type |-> d.type, cts |-> d.cts, to |-> i + 1 + m]
StartOf(b) == IF Len(b) = 0 \/ b[1] # 0 THEN [ok |-> FALSE, type |-> 0, cts |-> <<>>, to |-> 0]
              ELSE LET c == Ctl(b, 2) IN [c EXCEPT !.ok = @ /\ c.type = START]
Item(b, i) ==   \* [what, f, to]
    LET X(w) == [what |-> w, f |-> <<>>, to |-> 0]
    IN IF i > Len(b) THEN X("eof")
       ELSE IF b[i] > 0 THEN (IF b[i] > Len(b) - i THEN (IF M("partial") /\ i < Len(b) THEN [what |-> "data", f |-> SubSeq(b, i + 1, Len(b)), to |-> Len(b) + 1] ELSE X("eof"))
                              ELSE [what |-> "data", f |-> SubSeq(b, i + 1, i + b[i]), to |-> i + 1 + b[i]])
       ELSE LET c == Ctl(b, i + 1)
            IN IF i + 2 <= Len(b) /\ b[i+1] \in 1..MaxPayload /\ b[i+1] <= Len(b) - i - 1 /\ b[i+2] \notin Types
              THEN (IF M("unkbad") THEN X("bad") ELSE [what |-> "unk", f |-> <<>>, to |-> i + 2 + b[i+1]])
              ELSE IF ~c.ok THEN (IF M("resync") THEN [what |-> "skip", f |-> <<>>, to |-> i + 2] ELSE X("bad"))
               ELSE IF c.type = STOP THEN [what |-> "stop", f |-> <<>>, to |-> c.to]
               ELSE [what |-> "skip", f |-> <<>>, to |-> c.to]

(* ---- fstrm_dump ------------------------------------------------------- *)
Put(bs) == \* into the copy
    /\ cop' = SubSeq(cop \o bs, 1, IF Len(cop) + Len(bs) <= lim THEN Len(cop) + Len(bs) ELSE lim)
    /\ over' = (over \/ Len(cop) + Len(bs) > lim)
Open == /\ pc = "open"
        /\ LET s == StartOf(in)
           IN IF ~s.ok THEN pc' = "end" /\ UNCHANGED <<cop, over, pos>>
              ELSE IF nocopy THEN pc' = "end" /\ UNCHANGED <<cop, over, pos>>
              ELSE /\ pos' = s.to
                   /\ IF copy THEN Put(E(START, IF M("notype") THEN <<>> ELSE s.cts)) ELSE UNCHANGED <<cop, over>>
                   /\ pc' \in (IF copy /\ over' THEN {"read", "close"} ELSE {"read"})    \* noticed now or later
        /\ UNCHANGED <<o, in, k, out, lens, lim, copy, nocopy, rc, fs, recv, rx, more>>
Read == /\ pc = "read"
        /\ LET i == Item(in, pos)
           IN CASE i.what = "data" ->
                     /\ pos' = i.to /\ out' = Append(out, Line(i.f)) /\ lens' = Append(lens, Len(i.f))
                     /\ IF copy /\ ~(M("lost") /\ Len(out) = 1) THEN Put(D(i.f)) ELSE UNCHANGED <<cop, over>>
                     /\ pc' \in (IF over' THEN {"read", "close"} ELSE {"read"})
                     /\ UNCHANGED rc
                [] i.what = "stop" -> pc' = "close" /\ rc' = 0 /\ UNCHANGED <<pos, out, lens, cop, over>>
                [] i.what = "unk" -> pos' = i.to /\ UNCHANGED <<pc, out, lens, cop, over, rc>>
                [] i.what = "skip" -> pc' \in {"read", "close"} /\ pos' = i.to /\ UNCHANGED <<out, lens, cop, over, rc>>
                [] OTHER -> pc' = "close" /\ rc' = (IF M("eofok") /\ i.what = "eof" THEN 0 ELSE rc) /\ UNCHANGED <<pos, out, lens, cop, over>>
        /\ UNCHANGED <<o, in, k, lim, copy, nocopy, fs, recv, rx, more>>
Close == /\ pc = "close"
         /\ IF copy /\ ~(M("nostop") /\ rc # 0) THEN Put(E(STOP, <<>>)) ELSE UNCHANGED <<cop, over>>
         /\ rc' = (IF over' /\ ~M("closeok") THEN 1 ELSE rc)
         /\ pc' = "end" /\ UNCHANGED <<o, in, pos, k, out, lens, lim, copy, nocopy, fs, recv, rx, more>>
End == /\ pc = "end"
       /\ o' = ToolStep(o, [e |-> "dump", in |-> in, big |-> <<>>, copy |-> copy, lim |-> lim, bad |-> nocopy, out |-> out, lens |-> lens, rc |-> rc, cop |-> cop])
       /\ pc' = "done" /\ UNCHANGED <<in, pos, k, out, lens, cop, lim, copy, nocopy, over, rc, fs, recv, rx, more>>

(* ---- fstrm_replay ----------------------------------------------------- *)
Send(bs) == rx' = SubSeq(rx \o bs, 1, IF Len(rx) + Len(bs) <= recv.read THEN Len(rx) + Len(bs) ELSE recv.read)
Fails == Len(rx') >= recv.read      \* the receiver went away: sending may fail
Connect == /\ pc = "connect"
           /\ IF recv.name = "refuse" THEN pc' = "rend" /\ UNCHANGED rx
              ELSE Send(E(READY, <<<<T>>>>)) /\ pc' = (IF recv.acc \/ (M("anyaccept") /\ recv.name = "accno") THEN "start" ELSE "rend")
           /\ UNCHANGED <<o, in, pos, k, out, lens, cop, lim, copy, nocopy, over, rc, fs, recv, more>>
Starts == /\ pc = "start" /\ Send(E(START, <<<<T>>>>))
          /\ pc' \in (IF Fails THEN {"file", "rend"} ELSE {"file"})
          /\ UNCHANGED <<o, in, pos, k, out, lens, cop, lim, copy, nocopy, over, rc, fs, recv, more>>
File == /\ pc = "file"
        /\ IF k = Len(fs) THEN pc' = "finish" /\ UNCHANGED <<k, in, pos>>
           ELSE /\ k' = k + 1
                /\ LET f == fs[k + 1]  b == IF f = "absent" THEN <<>> ELSE Library[f]  s == StartOf(b)
                       ok == f # "absent" /\ s.ok /\ (s.cts = <<>> \/ s.cts = <<<<T>>>> \/ M("anytype"))
                   IN IF ok THEN in' = b /\ pos' = s.to /\ pc' = "copy"
                      ELSE UNCHANGED <<in, pos>> /\ pc' = (IF M("giveup") THEN "finish" ELSE "file")
        /\ UNCHANGED <<o, out, lens, cop, lim, copy, nocopy, over, rc, fs, recv, rx, more>>
Copy == /\ pc = "copy"
        /\ LET i == Item(in, pos)
           IN CASE i.what = "data" -> /\ pos' = i.to /\ (IF M("drop2") /\ k = 2 THEN UNCHANGED rx ELSE Send(D(i.f)))
                                      /\ pc' \in (IF Fails THEN {"copy", "rend"} ELSE {"copy"})
                [] i.what = "skip" -> pos' = i.to /\ pc' \in {"copy", "file"} /\ UNCHANGED rx
                [] i.what = "unk" -> pos' = i.to /\ pc' = "copy" /\ UNCHANGED rx
                [] i.what = "stop" /\ M("past") -> pos' = i.to /\ pc' = "copy" /\ UNCHANGED rx
                [] OTHER -> pc' = "file" /\ UNCHANGED <<pos, rx>>
        /\ UNCHANGED <<o, in, k, out, lens, cop, lim, copy, nocopy, over, rc, fs, recv, more>>
Finish == /\ pc = "finish" /\ (IF M("unstopped") THEN UNCHANGED rx ELSE Send(E(STOP, <<>>)))
          /\ rc' = (IF recv.fin \/ (M("nofinok") /\ recv.name = "nofin") \/ (M("sentok") /\ recv.name = "close9") THEN 0 ELSE 1)
          /\ pc' = "rend"
          /\ UNCHANGED <<o, in, pos, k, out, lens, cop, lim, copy, nocopy, over, fs, recv, more>>
REnd == /\ pc = "rend"
        /\ o' = ToolStep(o, [e |-> "replay", ct |-> <<T>>, files |-> [i \in DOMAIN fs |-> [open |-> fs[i] # "absent", in |-> IF fs[i] = "absent" THEN <<>> ELSE Library[fs[i]]]],
                             big |-> <<>>, recv |-> recv, rx |-> rx, rc |-> rc])
        /\ pc' = "done" /\ UNCHANGED <<in, pos, k, out, lens, cop, lim, copy, nocopy, over, rc, fs, recv, rx, more>>

Next == Open \/ Read \/ Close \/ End \/ Connect \/ Starts \/ File \/ Copy \/ Finish \/ REnd
Spec == Init /\ [][Next]_vars
NoBad == o.bad = {}
Emit == ~Gen \/ pc # "done" \/ PrintT("SCRIPT " \o ToJson(IF Which = "dump" THEN [fs |-> fs, copy |-> copy, bad |-> nocopy] ELSE [fs |-> fs, recv |-> recv.name]))
=============================================================================
