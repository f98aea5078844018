--------------------------------- MODULE Opt ---------------------------------
(***************************************************************************)
(* Design of option objects: setters keep the last valid value, objects    *)
(* copy them at creation. The OptRules observer judges every probe. NOps   *)
(* setter calls precede the creation of an I/O thread, a reader or a       *)
(* writer.                                                                 *)
(***************************************************************************)
EXTENDS OptRules, Json
CONSTANTS NOps, Mutation, Gen
VARIABLES opt, obj, rmax, cts, ph, ops, acc, w, o, h
vars == <<opt, obj, rmax, cts, ph, ops, acc, w, o, h>>
M(m) == Mutation = m
Fold(os, es) == LET F[i \in 0..Len(es)] == IF i = 0 THEN os ELSE OptStep(F[i-1], es[i]) IN F[Len(es)]
Big == <<0, 0, 65535, 65535>>
Huge == <<0, 1, 0, 0>>
Values == [bh |-> {Q(0), Q(1023), Q(1024), Q(65536), Q(65537), Big}, ft |-> {Q(0), Q(1), Q(2), Q(600), Q(601)},
           iq |-> {Q(0), Q(1), Q(2), Q(3), Q(4), Q(6), Q(16384), Q(32768)}, nq |-> {Q(0), Q(1), Q(2)}, oq |-> {Q(1), Q(2), Q(3), Q(1024), Q(1025)},
           m |-> {Q(0), Q(1), Q(2), Big}, nt |-> {Q(0), Q(1), Big}, ri |-> {Q(0), Q(1), Q(600), Q(601)}]
Accept(n, v) == CASE M("clamp") /\ n = "oq" /\ v = Q(1025) -> TRUE
                  [] M("notpow2") /\ n = "iq" -> In(v, 2, 16384)
                  [] M("offbyone") /\ n = "ri" -> In(v, 1, 599)
                  [] M("zero") /\ n = "nq" -> TRUE
                  [] M("nomodel") /\ n = "m" -> TRUE
                  [] OTHER -> Valid(n, v)
Init == /\ opt = Default /\ obj = Default /\ rmax = Q(1048576) /\ cts = <<>> /\ ph = "set" /\ ops = NOps /\ acc = 0 /\ w = 0 /\ o = OptInit /\ h = <<>>
Rec(x) == h' = IF Gen THEN Append(h, x) ELSE h
Set == /\ ph = "set" /\ ops > 0 /\ ops' = ops - 1
       /\ \E n \in DOMAIN Values : \E v \in Values[n] :
            /\ o' = Fold(o, <<[e |-> "set", name |-> n, v |-> v, ok |-> Accept(n, v)]>>)
            /\ opt' = (IF Accept(n, v) \/ M("clobber") THEN [opt EXCEPT ![IF M("field") /\ n = "ri" THEN "ft" ELSE n] = v] ELSE opt)
            /\ Rec(<<n, v>>)
       /\ UNCHANGED <<obj, rmax, cts, ph, acc, w>>
SetR == /\ ph = "set" /\ ops > 0 /\ ops' = ops - 1
        /\ \E v \in {Q(0), Q(511), Q(512), Q(100000), <<0, 0, 65535, 65534>>, Big, Huge, <<0, 1, 0, 1024>>} :
             LET ok == IF M("rwrap") THEN ValidMax(<<0, 0, v[3], v[4]>>) ELSE ValidMax(v)
             IN /\ o' = Fold(o, <<[e |-> "rset", v |-> v, ok |-> ok]>>)
                /\ rmax' = (IF ok \/ M("rclobber") THEN v ELSE rmax)
                /\ Rec(<<"max", v>>)
        /\ UNCHANGED <<opt, obj, cts, ph, acc, w>>
AddCt == /\ ph = "set" /\ ops > 0 /\ ops' = ops - 1
         /\ \E n \in {1, 255, 256, 257} :
              LET ok == n <= (IF M("ctlen") THEN 255 ELSE 256)
              IN /\ n \notin {cts[i] : i \in DOMAIN cts}
                 /\ o' = Fold(o, <<[e |-> "ct", n |-> n, c |-> n, w |-> ok, r |-> ok]>>)
                 /\ cts' = (IF ok THEN Append(cts, n) ELSE IF M("ctkeep") THEN Append(cts, n) ELSE cts)
                 /\ Rec(<<"ct", n>>)
         /\ UNCHANGED <<opt, obj, rmax, ph, acc, w>>
Create == /\ ph = "set" /\ \E k \in {"burst", "lone", "retry", "queues", "reader", "writer"} :
               /\ ph' = k
               /\ o' = (IF k \in {"reader", "writer"} THEN o ELSE Fold(o, <<[e |-> "mode", m |-> k], [e |-> "init", ok |-> TRUE]>>))
               /\ Rec(<<"go", k>>)
          /\ obj' = (IF M("alias") THEN [opt EXCEPT !.oq = Q(1)] ELSE opt)
          /\ ops' = 12 /\ UNCHANGED <<opt, rmax, cts, acc, w>>
P(n) == Num(obj[n])
Small2(n) == Small(obj[n]) /\ P(n) > 0 /\ P(n) <= 4
Probe ==
    /\ ops > 0 /\ UNCHANGED <<opt, obj, rmax, cts, ph, h>>
    /\ \/ /\ ph = "burst" /\ Small2("iq")
          /\ IF w = -1
             THEN /\ acc > 0 /\ ops' = ops - 1
                  /\ LET n == IF acc < P("oq") THEN acc ELSE P("oq")
                     IN /\ o' = Fold(o, <<[e |-> "wv", n |-> n, bytes |-> 9 * n]>>) /\ acc' = acc - n /\ UNCHANGED w
             ELSE /\ ops' = ops - 1
                  /\ LET ok == acc < P("iq") - 1
                         pre == IF w = 0 /\ acc = 0 THEN <<[e |-> "to", t |-> 0]>> ELSE <<>>
                     IN /\ o' = Fold(o, pre \o <<[e |-> "sc", q |-> 1, len |-> 5, t |-> 0], [e |-> "sr", ok |-> ok, again |-> TRUE]>>
                                      \o (IF ok THEN <<>> ELSE <<[e |-> "te", t |-> 0]>>))
                        /\ acc' = (IF ok THEN acc + 1 ELSE acc) /\ w' = (IF ok THEN w ELSE -1)
       \/ /\ ph = "lone" /\ P("ft") <= 600 /\ ops' = 0 /\ UNCHANGED <<acc, w>>
          /\ \E t \in {1, 500 * P("ft"), 1000 * P("ft")} :
               o' = Fold(o, <<[e |-> "sc", q |-> 1, len |-> 5, t |-> t], [e |-> "sr", ok |-> TRUE, again |-> FALSE],
                              [e |-> "d", k |-> 1, t |-> (IF t = 1000 * P("ft") THEN 3000 ELSE 2000) * P("ft")]>>)
       \/ /\ ph = "retry" /\ ops' = 0 /\ UNCHANGED <<acc, w>> /\ P("ri") <= 601
          /\ o' = Fold(o, <<[e |-> "to", t |-> 0], [e |-> "te", t |-> 10], [e |-> "to", t |-> 1000 * P("ri") + (IF P("ft") <= 600 THEN P("ft") ELSE 0) * 1000]>>)
       \/ /\ ph = "queues" /\ ops' = 0 /\ UNCHANGED <<acc, w>>
          /\ o' = Fold(o, [i \in 1..3 |-> [e |-> "gx", v |-> Q(i - 1), some |-> i - 1 < P("nq")]])
       \/ /\ ph = "reader" /\ ops' = 0 /\ UNCHANGED <<acc, w>>
          /\ o' = Fold(o, [i \in 1..4 |-> LET v == <<Q(512), Q(513), Q(1048576), Q(1048577)>>[i] IN [e |-> "frame", v |-> v, ok |-> LE(v, rmax)]]
                          \o <<[e |-> "start", c |-> 255, ok |-> cts = <<>> \/ 255 \in {cts[i] : i \in DOMAIN cts}]>>)
       \/ /\ ph = "writer" /\ ops' = 0 /\ UNCHANGED <<acc, w>>
          /\ o' = Fold(o, <<[e |-> "ready", cs |-> cts]>>)
Next == Set \/ SetR \/ AddCt \/ Create \/ Probe
Spec == Init /\ [][Next]_vars
NoBad == o.bad = {}
Emit == (Gen /\ ph # "set" /\ ops = 12) => PrintT("SCRIPT " \o ToJson([h |-> h]))
==============================================================================
