------------------------------- MODULE Endure -------------------------------
(***************************************************************************)
(* Design of what fstrm_capture holds: an object and a control object per  *)
(* connection, its socket, the bytes received of an incomplete frame (at   *)
(* most Buf), the output with its name. The events of the first round are  *)
(* chosen freely and repeated; at the end of each round all clients leave. *)
(* Tool = TRUE: a program that works on a list of inputs instead, once and *)
(* then on the same list again and again.                                  *)
(***************************************************************************)
EXTENDS EndureRules, Json
CONSTANTS NConn, NOps, Rounds, Buf, Tool, Gen, Mutation

VARIABLES c, buf, mem, fds, script, pos, round, st, o
vars == <<c, buf, mem, fds, script, pos, round, st, o>>
I == 1..NConn
Live == Cardinality({i \in I : c[i] # "none"})
RECURSIVE Sum(_)
Sum(s) == IF s = {} THEN 0 ELSE LET i == CHOOSE i \in s : TRUE IN buf[i] + Sum(s \ {i})
Cfg == EndStep(EndInit, [e |-> "cfg", slack |-> 0, per |-> IF Tool THEN 1 ELSE 2 + Buf])
See(ob, m, f, live) == EndStep(ob, [e |-> "rest", fds |-> f, mem |-> m, live |-> live])

Init == /\ c = [i \in I |-> "none"] /\ buf = [i \in I |-> 0] /\ mem = 2 /\ fds = 4
        /\ script = <<>> /\ pos = 0 /\ round = 1 /\ st = "run" /\ o = IF Tool THEN Cfg ELSE See(Cfg, 2, 4, 0)

Ops == {<<k, i>> : k \in {"conn", "good", "part", "big", "bad", "stop", "fin"}, i \in I} \cup {<<"usr1", 0>>, <<"hup", 0>>}
Enabled(op) == CASE op[1] = "conn" -> c[op[2]] = "none" /\ \A j \in I : j < op[2] => c[j] # "none"
                 [] op[1] \in {"usr1", "hup"} -> TRUE
                 [] op[1] = "good" -> c[op[2]] = "open"
                 [] op[1] = "part" -> c[op[2]] \in {"open", "part"}
                 [] op[1] = "big" -> c[op[2]] \in {"open", "skip"}
                 [] op[1] \in {"bad", "stop"} -> c[op[2]] = "open"
                 [] op[1] = "fin" -> c[op[2]] # "none"
L(m) == IF Mutation = m THEN 1 ELSE 0
\* the effect on one connection, memory and descriptors: <<state, bytes kept, memory, descriptors>>
Eff(op, s, b) ==
    CASE op[1] = "conn" -> <<"open", 0, 2, 1>>
      [] op[1] = "good" -> <<"open", 0, L("leakframe"), 0>>
      [] op[1] = "part" -> LET k == IF b + 2 <= Buf THEN 2 ELSE 0 IN <<"part", b + k, k, 0>>
      [] op[1] = "big" -> <<"skip", b + 3 * L("hoard"), 3 * L("hoard"), 0>>
      [] op[1] = "bad" -> <<"none", 0, L("leakctl") - 2 - b, L("leaksock") - 1>>
      [] op[1] = "stop" -> <<"none", 0, L("leakstop") - 2 - b, -1>>
      [] op[1] = "fin" -> <<"none", 0, (IF b > 0 THEN L("leakpart") ELSE 0) + (IF s = "skip" THEN L("leakskip") ELSE 0) - 2 - b, -1>>
      [] op[1] = "usr1" -> <<s, b, L("leakname"), L("leakfile")>>
      [] op[1] = "hup" -> <<s, b, L("leakhup"), 0>>
Apply(op) ==
    LET i == IF op[2] = 0 THEN 1 ELSE op[2]  e == Eff(op, c[i], buf[i])
        d == [c EXCEPT ![i] = e[1]]
    IN /\ c' = d /\ buf' = [buf EXCEPT ![i] = e[2]] /\ mem' = mem + e[3] /\ fds' = fds + e[4]
       /\ o' = See(o, mem + e[3], fds + e[4], Cardinality({j \in I : d[j] # "none"}))
First == /\ ~Tool /\ st = "run" /\ round = 1 /\ Len(script) < NOps
         /\ \E op \in Ops : Enabled(op) /\ Apply(op) /\ script' = Append(script, op)
         /\ UNCHANGED <<pos, round, st>>
Again == /\ ~Tool /\ st = "run" /\ round > 1 /\ pos < Len(script)
         /\ Apply(script[pos + 1]) /\ pos' = pos + 1
         /\ UNCHANGED <<script, round, st>>
\* all clients leave
EndRound == /\ ~Tool /\ st = "run" /\ script # <<>> /\ (round = 1 \/ pos = Len(script))
            /\ LET left == {i \in I : c[i] # "none"}
                   lost == Cardinality({i \in left : buf[i] > 0}) * L("leakpart") + Cardinality({i \in left : c[i] = "skip"}) * L("leakskip")
                   m == mem - 2 * Cardinality(left) - Sum(left) + lost
                   f == fds - Cardinality(left)
               IN /\ mem' = m /\ fds' = f
                  /\ o' = EndStep(See(o, m, f, 0), [e |-> "round", n |-> round, fds |-> f, mem |-> m])
            /\ c' = [i \in I |-> "none"] /\ buf' = [i \in I |-> 0] /\ pos' = 0
            /\ IF round = Rounds THEN st' = "done" /\ UNCHANGED round ELSE round' = round + 1 /\ UNCHANGED st
            /\ UNCHANGED script

Kinds == {"good", "other", "missing", "damaged", "empty"}
Cost(k) == IF k # "missing" /\ Mutation = "leak" \o k THEN <<2, 1>> ELSE IF k = Mutation THEN <<2, 0>> ELSE <<0, 0>>
RECURSIVE Total(_, _)
Total(s, j) == IF s = <<>> THEN 0 ELSE Cost(Head(s))[j] + Total(Tail(s), j)
Pick == /\ Tool /\ st = "run" /\ round = 1 /\ Len(script) < NOps
        /\ \E k \in Kinds : script' = Append(script, k)
        /\ UNCHANGED <<c, buf, mem, fds, pos, round, st, o>>
\* a whole run over the list, repeated round times: one word per input for its name
RunAll == /\ Tool /\ st = "run" /\ script # <<>>
          /\ LET n == round * Len(script)
             IN o' = EndStep(o, [e |-> "ended", n |-> n, fds |-> 3 + round * Total(script, 2), mem |-> 2 + n + round * Total(script, 1)])
          /\ round' = round + 1
          /\ IF round = Rounds THEN st' = "done" ELSE UNCHANGED st
          /\ UNCHANGED <<c, buf, mem, fds, script, pos>>
Next == First \/ Again \/ EndRound \/ Pick \/ RunAll
Spec == Init /\ [][Next]_vars
NoBad == o.bad = {}
\* with nothing left to do, nothing is held but for the clients that are there
Exact == Mutation = "none" => Tool \/ (mem = 2 + 2 * Live + Sum(I) /\ fds = 4 + Live)
Emit == (Gen /\ st = "done") => PrintT("SCRIPT " \o ToJson(script))
=============================================================================
