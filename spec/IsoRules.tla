----------------------------- MODULE IsoRules ------------------------------
(***************************************************************************)
(* Objects in use side by side: the observer for N01. It is the product of *)
(* the observers of the single objects: each must behave as it does alone, *)
(* whatever happens to the others meanwhile.                               *)
(* objs: sequence of [kind, cfg], kind in ctl, io, sock, file, iothr; event *)
(* [o, e] belongs to object o, o = 0 stands for the process as a whole     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS WordLen, MaxPayload, MaxCt
C == INSTANCE Control
I == INSTANCE IoRules
S == INSTANCE SockRules
F == INSTANCE FileRules
T == INSTANCE IothrRules

ObjInit(d) == CASE d.kind = "ctl" -> C!ObsInit
                [] d.kind = "io" -> I!IoInit
                [] d.kind = "sock" -> S!SockInit
                [] d.kind = "file" -> F!FileInit
                [] d.kind = "iothr" -> T!IothrInit(d.cfg)
ObjStep(d, o, e) == CASE d.kind = "ctl" -> C!Step(o, e)
                      [] d.kind = "io" -> I!IoStep(d.cfg, o, e)
                      [] d.kind = "sock" -> S!SockStep(o, e)
                      [] d.kind = "file" -> F!FileStep(o, e)
                      [] d.kind = "iothr" -> T!IothrStep(d.cfg, o, e)
IsoInit(objs) == [obj |-> [i \in DOMAIN objs |-> ObjInit(objs[i])], bad |-> {}]
IsoStep(objs, o, ev) ==
    IF ev.o = 0 THEN (IF ev.e = "ok" THEN o ELSE [o EXCEPT !.bad = {"N01"}])
    ELSE LET n == ObjStep(objs[ev.o], o.obj[ev.o], ev.e)
         IN [obj |-> [o.obj EXCEPT ![ev.o] = n], bad |-> IF n.bad = {} THEN o.bad ELSE {"N01"}]
=============================================================================
