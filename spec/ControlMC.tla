----------------------------- MODULE ControlMC -----------------------------
(***************************************************************************)
(* Exhaustive check of the control object and the format on a scaled-down  *)
(* instance: one-byte words, short limits.                                 *)
(*  - every state of an object reachable with the API round-trips;         *)
(*  - the decoder accepts exactly the image of the encoder: WellFormed is  *)
(*    a second, declarative definition, compared on every byte string.     *)
(* Mutation replaces one rule of the modelled implementation, which the    *)
(* observer must then reject.                                              *)
(***************************************************************************)
EXTENDS Control
CONSTANTS Alphabet, MaxBytes, MaxFields, Mutation

Cts == UNION {[1..n -> {0, 7}] : n \in 0..(MaxCt + 1)}
Strings(n) == [1..n -> Alphabet]

Lists(k) == IF k = 0 THEN {<<>>} ELSE [1..k -> UNION {Strings(n) : n \in 0..MaxCt}]
Image == UNION {UNION {{Encode(ty, cs, FALSE) : cs \in {c \in Lists(k) : PayloadLen(c) <= MaxPayload}} :
                         k \in 0..(IF ty \in {STOP, FINISH} THEN 0 ELSE IF ty = START THEN 1 ELSE 2)} : ty \in Types}

ASSUME LET I == TLCEval(Image) IN
       /\ \A n \in 0..MaxBytes : \A b \in Strings(n) :
            LET d == DecodePayload(b) IN
            /\ d.ok = (b \in I)
            /\ d.ok => Encode(d.type, d.cts, FALSE) = b
       /\ \A b \in I : \A h \in BOOLEAN :
            LET d == DecodePayload(b) IN Decode(Encode(d.type, d.cts, h), h) = d

VARIABLES type, cts, o
vars == <<type, cts, o>>
Init == type = Unset /\ cts = <<>> /\ o = ObsInit

Do(e, ty, cs) == type' = ty /\ cts' = cs /\ o' = Step(o, e)
Res(b) == IF b THEN "ok" ELSE "fail"
M(m) == Mutation = m

SetType == \E w \in 0..6 :
    LET ok == IF M("settype") THEN w # 0 ELSE w \in Types
    IN Do([op |-> "set_type", w |-> Enc(w), res |-> Res(ok)], IF ok THEN w ELSE type, cts)
Add == /\ Len(cts) < MaxFields
       /\ \E c \in Cts :
            LET ok == IF M("addlong") THEN TRUE ELSE Len(c) <= MaxCt
            IN Do([op |-> "add", ct |-> c, res |-> Res(ok)], type, IF ok THEN Append(cts, c) ELSE cts)
Num == Do([op |-> "num", res |-> "ok",
           n |-> IF M("numstart") THEN Len(cts) ELSE Len(Reported(type, cts))], type, cts)
Get == \E i \in 0..MaxFields :
         LET ok == i < Len(cts)
         IN Do([op |-> "get", idx |-> i, res |-> Res(ok), ct |-> IF ok THEN cts[i+1] ELSE <<>>], type, cts)
Match == \E q \in {<<>>} \cup {<<c>> : c \in Cts} :
         LET r == IF M("matchall") THEN cts ELSE Reported(type, cts)
             ok == /\ type \notin {STOP, FINISH}
                   /\ \/ r = <<>>
                      \/ q # <<>> /\ \E i \in 1..Len(r) :
                           IF M("matchprefix") THEN r[i] = SubSeq(q[1], 1, Len(r[i])) ELSE r[i] = q[1]
         IN Do([op |-> "match", q |-> q, res |-> Res(ok)], type, cts)
EncodeOp == \E hdr \in BOOLEAN : \E cap \in 0..(MaxPayload + 3) :
         LET r == Reported(type, cts)
             n == PayloadLen(r) + HdrLen(hdr)
             lim == IF M("hdrlimit") THEN n ELSE PayloadLen(r)
             ok == lim <= MaxPayload /\ cap >= n
         IN Do([op |-> "encode", hdr |-> hdr, cap |-> cap, clean |-> TRUE, res |-> Res(ok),
                n |-> n, out |-> IF ok THEN Encode(type, r, hdr) ELSE <<>>], type, cts)
DecodeOp == \E hdr \in BOOLEAN : \E b \in {Encode(ty, c, hdr) : ty \in Types, c \in {<<>>, <<<<7>>>>, <<<<7>>, <<0>>>>}} :
         LET d == Decode(b, hdr)
             keep == M("noreset")
         IN /\ d.ok
            /\ Len(cts) + Len(d.cts) <= MaxFields
            /\ LET cs == IF keep THEN cts \o d.cts ELSE d.cts
               IN Do([op |-> "decode", hdr |-> hdr, bytes |-> b, res |-> "ok", type |-> d.type, cts |-> cs], d.type, cs)
Reset == Do([op |-> "reset"], Unset, <<>>)

Next == SetType \/ Add \/ Num \/ Get \/ Match \/ EncodeOp \/ DecodeOp \/ Reset
Spec == Init /\ [][Next]_vars
NoBad == o.bad = {}
=============================================================================
