----------------------------- MODULE ControlGen -----------------------------
(***************************************************************************)
(* Test cases enumerated from the specification, at full size: every       *)
(* combination of the equivalence classes of the format for decoding, and  *)
(* every object up to three content types for the other calls.             *)
(***************************************************************************)
EXTENDS Control, Json, IOUtils, SequencesExt
CONSTANTS MaxFieldsGen

Fill(n, s) == [i \in 1..n |-> (i * 7 + s) % 256]
CtBytes(n) == Enc(FieldCt) \o Enc(n) \o Fill(n, n)
TypeWords == {Enc(w) : w \in 0..6} \cup {<<0, 0, 1, 2>>, <<1, 0, 0, 2>>, <<255, 255, 255, 255>>}
FieldKinds == {"ct0", "ct1", "ct9", "ct256", "ct257", "over", "wrap", "unknown", "cut1", "cut5"}
FieldBytes(k) ==
    CASE k = "ct0" -> CtBytes(0)
      [] k = "ct1" -> CtBytes(1)
      [] k = "ct9" -> CtBytes(9)
      [] k = "ct256" -> CtBytes(256)
      [] k = "ct257" -> CtBytes(257)
      [] k = "over" -> Enc(FieldCt) \o Enc(10) \o Fill(9, 0)      \* announces one byte too many
      [] k = "wrap" -> Enc(FieldCt) \o <<255, 255, 255, 255>> \o Fill(3, 0)
      [] k = "unknown" -> Enc(2) \o Enc(1) \o <<5>>
      [] k = "cut1" -> <<0>>
      [] k = "cut5" -> Enc(FieldCt) \o <<0>>
FieldLists == UNION {[1..n -> FieldKinds] : n \in 0..MaxFieldsGen}
Payloads == {t \o Cat([i \in 1..Len(f) |-> FieldBytes(f[i])]) : t \in TypeWords, f \in FieldLists}
            \* exactly 512 / 513 / 504 / 505 bytes
            \cup {t \o CtBytes(256) \o CtBytes(n) : t \in TypeWords, n \in {227, 228, 235, 236, 237}}
            \cup {<<>>, <<0>>, <<0, 0, 0>>}
HdrKinds == {"none", "ok", "escape", "escape2", "short", "long", "wrap", "cut"}
WithHdr(k, p) ==
    CASE k = "none" -> p
      [] k = "ok" -> Enc(0) \o Enc(Len(p)) \o p
      [] k = "escape" -> Enc(1) \o Enc(Len(p)) \o p
      [] k = "escape2" -> <<128, 0, 0, 0>> \o Enc(Len(p)) \o p
      [] k = "short" -> Enc(0) \o Enc(Len(p) + 1) \o p
      [] k = "long" -> Enc(0) \o Enc(IF Len(p) = 0 THEN 0 ELSE Len(p) - 1) \o p
      [] k = "wrap" -> Enc(0) \o <<255, 255, 255, 255>> \o p
      [] k = "cut" -> SubSeq(Enc(0) \o Enc(Len(p)), 1, 7)
DecodeCases ==
    {[hdr |-> k # "none", bytes |-> WithHdr(k, p)] : k \in {"none", "ok"}, p \in Payloads}
    \cup {[hdr |-> TRUE, bytes |-> WithHdr(k, p)] :
            k \in HdrKinds \ {"none", "ok"},
            p \in {t \o Cat([i \in 1..Len(f) |-> FieldBytes(f[i])]) : t \in TypeWords, f \in UNION {[1..n -> {"ct9", "cut1"}] : n \in 0..1}}}

ObjCts == {<<>>, <<0>>, <<97>>, <<97, 98>>, Fill(248, 1), Fill(256, 2)}
Objects == [type : 0..5, cts : UNION {[1..n -> ObjCts] : n \in 0..MaxFieldsGen}]

ASSUME ndJsonSerialize(IOEnv.OUT_DECODE, SetToSeq(DecodeCases))
ASSUME ndJsonSerialize(IOEnv.OUT_OBJECTS, SetToSeq(Objects))
VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
=============================================================================
