-------------------------------- MODULE Iso ---------------------------------
(***************************************************************************)
(* Several objects of a library side by side: design for N01. An object is *)
(* created with a configuration, takes calls with an argument that leave   *)
(* a mark in its state, answers each call from its configuration, its      *)
(* state and the argument, and is destroyed. A call takes several steps    *)
(* (argument to scratch space, state updated, answer), and other objects   *)
(* may move in between. Alone[i] is the same object without company.       *)
(* Mutations are the ways in which objects come to share something.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Calls, Args, Mutation
M(m) == Mutation = m
VARIABLES pc, cfg, state, scratch, arg, left, alone, bad
vars == <<pc, cfg, state, scratch, arg, left, alone, bad>>
Objs == 1..N
\* where object i keeps things
CfgOf(i) == IF M("sharedcfg") THEN 1 ELSE i
StateOf(i) == IF M("sharedstate") THEN 1 ELSE i
ScratchOf(i) == IF M("sharedscratch") THEN 1 ELSE i

Init == /\ pc = [i \in Objs |-> "none"] /\ cfg = [i \in Objs |-> 0] /\ state = [i \in Objs |-> <<>>]
        /\ scratch = [i \in Objs |-> 0] /\ arg = [i \in Objs |-> 0] /\ left = [i \in Objs |-> Calls]
        /\ alone = [i \in Objs |-> <<>>] /\ bad = FALSE

Create(i) == /\ pc[i] = "none" /\ pc' = [pc EXCEPT ![i] = "idle"]
             /\ cfg' = [cfg EXCEPT ![CfgOf(i)] = i]
             /\ state' = [state EXCEPT ![StateOf(i)] = <<>>]
             /\ UNCHANGED <<scratch, arg, left, alone, bad>>
Call(i) == /\ pc[i] = "idle" /\ left[i] > 0
           /\ \E a \in Args : /\ arg' = [arg EXCEPT ![i] = a]
                              /\ scratch' = [scratch EXCEPT ![ScratchOf(i)] = a]
           /\ pc' = [pc EXCEPT ![i] = "call"] /\ left' = [left EXCEPT ![i] = @ - 1]
           /\ UNCHANGED <<cfg, state, alone, bad>>
Update(i) == /\ pc[i] = "call" /\ pc' = [pc EXCEPT ![i] = "answer"]
             /\ state' = [state EXCEPT ![StateOf(i)] = Append(@, scratch[ScratchOf(i)])]
             /\ alone' = [alone EXCEPT ![i] = Append(@, arg[i])]
             /\ UNCHANGED <<cfg, scratch, arg, left, bad>>
Answer(i) == /\ pc[i] = "answer" /\ pc' = [pc EXCEPT ![i] = "idle"]
             /\ bad' = (bad \/ <<cfg[CfgOf(i)], state[StateOf(i)]>> # <<i, alone[i]>>)
             /\ UNCHANGED <<cfg, state, scratch, arg, left, alone>>
Destroy(i) == /\ pc[i] = "idle" /\ pc' = [pc EXCEPT ![i] = "gone"]
              /\ state' = IF M("destroyall") THEN [j \in Objs |-> <<>>] ELSE [state EXCEPT ![StateOf(i)] = <<>>]
              /\ UNCHANGED <<cfg, scratch, arg, left, alone, bad>>
Next == \E i \in Objs : Create(i) \/ Call(i) \/ Update(i) \/ Answer(i) \/ Destroy(i)
Spec == Init /\ [][Next]_vars
NoBad == ~bad
=============================================================================
