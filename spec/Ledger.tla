------------------------------- MODULE Ledger -------------------------------
(***************************************************************************)
(* Who holds which memory: options objects, a reader or writer handle with *)
(* its own copy of the options, the control frames of its latest session,  *)
(* its buffer and its transport, through opens that succeed or fail at any *)
(* frame, reads, closes, reopens and destruction at any moment.            *)
(* hold: pieces by kind; a kind that is obtained again replaces the piece  *)
(* that is already there, unless it is not given back first (a leak).      *)
(***************************************************************************)
EXTENDS LedgerRules, TLC, Json
CONSTANTS NOps, NCts, Mutation, Gen
Ctls == {"ready", "accept", "start", "stop", "finish"}
KindsOf == {"opts", "optct", "obj", "ct", "buf", "rdwr", "tmp"} \cup Ctls
VARIABLES st, hold, n, o, hist, round
vars == <<st, hold, n, o, hist, round>>
M(m) == Mutation = m
Sum(h) == LET F[S \in SUBSET KindsOf] == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN h[k] + F[S \ {k}] IN F[KindsOf]
Ev(o1, e, h) == LedgerStep(o1, [e EXCEPT !.live = Sum(h)])
E(name) == [e |-> name, k |-> "", null |-> TRUE, live |-> 0]
Empty == [k \in KindsOf |-> 0]

Init == st = "none" /\ hold = Empty /\ n = 0 /\ o = LedgerInit /\ hist = <<>> /\ round = "none"
Log(x) == hist' = IF Gen THEN Append(hist, x) ELSE hist
Do(h, es, x) == hold' = h /\ o' = (LET F[i \in 0..Len(es)] == IF i = 0 THEN o ELSE Ev(F[i-1], es[i], h) IN F[Len(es)])
                /\ n' = n + 1 /\ Log(x)

Options == /\ st = "none" /\ st' = "opts" /\ UNCHANGED round
           /\ Do([hold EXCEPT !["opts"] = 1, !["optct"] = NCts], <<E("new")>>, "options")
Transport == /\ st = "opts" /\ st' = "rdwr" /\ UNCHANGED round
             /\ Do([hold EXCEPT !["rdwr"] = 1], <<E("new")>>, "transport")
(* The handle takes the transport over; the caller's pointer becomes NULL. *)
Create == /\ st = "rdwr" /\ st' = "both" /\ round' \in {"ok", "fail", "mixed"}
          /\ LET h == [hold EXCEPT !["obj"] = 1, !["ct"] = NCts, !["rdwr"] = 1] IN
             /\ hold' = h /\ n' = n + 1 /\ Log("create")
             /\ o' = [Ev(o, E("new"), h) EXCEPT !.objs = 2]
(* Creating a handle may be refused: what was obtained on the way is given back. *)
Refused == /\ st = "opts" /\ st' = st /\ UNCHANGED round
           /\ Do([hold EXCEPT !["tmp"] = IF M("leakrefused") THEN @ + 1 ELSE @], <<E("refuse")>>, "refused")
DropOptions == /\ st = "both" /\ st' = "closed" /\ UNCHANGED round
               /\ LET h == [hold EXCEPT !["opts"] = 0, !["optct"] = IF M("leakopt") THEN @ ELSE 0] IN
                  Do(h, <<[E("gone") EXCEPT !.null = ~M("nonull")]>> \o <<E("again")>>, "drop")

(* An open exchanges frames up to f; a failed one ends anywhere. A frame   *)
(* of an earlier session is given back when another takes its place.       *)
Get(h, f) == [h EXCEPT ![f] = IF M("keep") /\ h[f] > 0 THEN @ + 1 ELSE 1]
RECURSIVE GetAll(_, _)
GetAll(h, fs) == IF fs = <<>> THEN h ELSE GetAll(Get(h, Head(fs)), Tail(fs))
Prefixes == {<<>>, <<"ready">>, <<"ready", "accept">>}
Opened == /\ st = "closed" /\ round \in {"ok", "mixed"} /\ st' = "open" /\ UNCHANGED round
          /\ Do(GetAll(hold, <<"ready", "accept", "start">>), <<E("call")>>, "open")
OpenFails == /\ st = "closed" /\ round \in {"fail", "mixed"} /\ st' = "closed" /\ UNCHANGED round
             /\ \E fs \in (IF round = "fail" THEN {<<"ready">>} ELSE Prefixes) :
                LET h == [GetAll(hold, fs) EXCEPT !["tmp"] = IF M("leakfail") THEN @ + 1 ELSE @] IN
                Do(h, <<E("call")>> \o (IF round = "fail" THEN <<E("mark")>> ELSE <<>>), "openfail")
Read == /\ st = "open" /\ UNCHANGED <<st, round>>
        /\ Do([hold EXCEPT !["buf"] = IF M("buf") THEN @ + 1 ELSE 1], <<E("call")>>, "read")
Close == /\ st = "open" /\ st' = "closed" /\ UNCHANGED round
         /\ LET h == GetAll(hold, <<"stop", "finish">>) IN
            Do(h, <<E("call")>> \o (IF round = "ok" /\ h["buf"] = 0 THEN <<E("mark")>> ELSE <<>>), "close")
Destroy == /\ st \in {"open", "closed"} /\ st' = "gone" /\ UNCHANGED round
           /\ LET h == [k \in KindsOf |-> IF M("leak" \o k) THEN hold[k] ELSE IF k \in {"opts", "optct"} THEN hold[k] ELSE IF k = "tmp" THEN hold[k] ELSE
                        IF k # "ct" /\ hold[k] > 1 THEN hold[k] - 1 ELSE 0] IN
              Do(h, <<E("gone"), E("again"), E("end")>>, "destroy")
Next == \/ n < NOps /\ (Options \/ Transport \/ Create \/ Refused \/ DropOptions \/ Opened \/ OpenFails \/ Read \/ Close)
        \/ Destroy
Spec == Init /\ [][Next]_vars
NoBad == o.bad = {}
Emit == (st = "gone") => PrintT("SCRIPT " \o ToJson([h |-> hist, round |-> round]))
=============================================================================
