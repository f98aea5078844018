------------------------------ MODULE Control ------------------------------
(***************************************************************************)
(* Control frames: the wire format, the control object (a type and a list  *)
(* of content types) and the observer of its API (properties C01-C03).     *)
(* Bytes are 0..255, byte strings are sequences. The sizes of the format   *)
(* are parameters so that the format can be checked exhaustively on a      *)
(* scaled-down instance (ControlMC) and used at full size on recorded      *)
(* executions (ControlTrace).                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS WordLen,     \* bytes per integer                     (4)
          MaxPayload,  \* longest control frame payload        (512)
          MaxCt        \* longest content type                 (256)

ACCEPT == 1  START == 2  STOP == 3  READY == 4  FINISH == 5
Types == 1..5
Unset == 0
FieldCt == 1

Min2(a, b) == IF a < b THEN a ELSE b

(* A big-endian word that does not fit the arithmetic is "Huge". *)
Huge == 1000000
Word(b, i) ==   \* the word that starts at position i of b
    IF WordLen = 1 THEN b[i]
    ELSE IF b[i] # 0 \/ b[i+1] > 10 THEN Huge
         ELSE b[i+1] * 65536 + b[i+2] * 256 + b[i+3]
Enc(n) ==
    IF WordLen = 1 THEN <<n>>
    ELSE <<0, n \div 65536, (n \div 256) % 256, n % 256>>

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

---------------------------------------------------------------------------
(* What an object reports, given its type and all added content types.     *)
Reported(type, cts) ==
    IF type \in {STOP, FINISH} THEN <<>>
    ELSE IF type = START THEN SubSeq(cts, 1, Min2(1, Len(cts)))
    ELSE cts

(* The encoding: escape, length, type, one field per content type.         *)
Payload(type, cts) ==
    Enc(type) \o Cat([i \in 1..Len(cts) |-> Enc(FieldCt) \o Enc(Len(cts[i])) \o cts[i]])
PayloadLen(cts) ==
    LET L[i \in 0..Len(cts)] == IF i = 0 THEN WordLen ELSE L[i-1] + 2 * WordLen + Len(cts[i])
    IN L[Len(cts)]
Encode(type, cts, hdr) ==
    LET p == Payload(type, cts)
    IN IF hdr THEN Enc(0) \o Enc(Len(p)) \o p ELSE p

(* The decoder, as a function of the bytes.                                *)
Bad == [ok |-> FALSE, type |-> Unset, cts |-> <<>>]
RECURSIVE Fields(_, _, _)
Fields(b, i, acc) ==   \* fields from position i on; <<>> for an error, <<list>> otherwise
    IF i > Len(b) THEN <<acc>>
    ELSE IF Len(b) - i + 1 < 2 * WordLen THEN <<>>
    ELSE IF Word(b, i) # FieldCt THEN <<>>
    ELSE LET n == Word(b, i + WordLen)  s == i + 2 * WordLen
         IN IF n > MaxCt \/ n > Len(b) - s + 1 THEN <<>>
            ELSE Fields(b, s + n, Append(acc, SubSeq(b, s, s + n - 1)))
DecodePayload(p) ==
    IF Len(p) > MaxPayload \/ Len(p) < WordLen THEN Bad
    ELSE IF Word(p, 1) \notin Types THEN Bad
    ELSE LET f == Fields(p, WordLen + 1, <<>>)
         IN IF f = <<>> THEN Bad
            ELSE IF Word(p, 1) = START /\ Len(f[1]) > 1 THEN Bad
            ELSE IF Word(p, 1) \in {STOP, FINISH} /\ Len(f[1]) > 0 THEN Bad
            ELSE [ok |-> TRUE, type |-> Word(p, 1), cts |-> f[1]]
Decode(b, hdr) ==
    IF ~hdr THEN DecodePayload(b)
    ELSE IF Len(b) < 2 * WordLen THEN Bad
    ELSE IF Word(b, 1) # 0 \/ Word(b, WordLen + 1) # Len(b) - 2 * WordLen THEN Bad
    ELSE DecodePayload(SubSeq(b, 2 * WordLen + 1, Len(b)))

(* Matching a content type; the query is a sequence of zero or one strings *)
(* (zero: unset).                                                          *)
Matches(type, cts, query) ==
    /\ type \notin {STOP, FINISH}
    /\ LET r == Reported(type, cts)
       IN \/ r = <<>>
          \/ query # <<>> /\ \E i \in 1..Len(r) : r[i] = query[1]

---------------------------------------------------------------------------
(* The observer. o.known is FALSE after a failed decode, which leaves the  *)
(* object unspecified until it is reset or decoded into again.             *)
ObsInit == [type |-> Unset, cts |-> <<>>, known |-> TRUE, bad |-> {}]

Flag(o, p, cond) == IF cond THEN o ELSE [o EXCEPT !.bad = @ \cup {p}]

StepReset(o, e) == [o EXCEPT !.type = Unset, !.cts = <<>>, !.known = TRUE]

StepSetType(o, e) ==
    LET w == Word(e.w, 1)
        o1 == Flag(o, "C03", (e.res = "ok") = (w \in Types))
    IN IF e.res = "ok" THEN [o1 EXCEPT !.type = w] ELSE o1

(* The published names.                                                    *)
TypeName(w) ==
    CASE w = ACCEPT -> "FSTRM_CONTROL_ACCEPT" [] w = START -> "FSTRM_CONTROL_START" [] w = STOP -> "FSTRM_CONTROL_STOP"
      [] w = READY -> "FSTRM_CONTROL_READY" [] w = FINISH -> "FSTRM_CONTROL_FINISH" [] OTHER -> "FSTRM_CONTROL_UNKNOWN"
FieldName(w) == IF w = FieldCt THEN "FSTRM_CONTROL_FIELD_CONTENT_TYPE" ELSE "FSTRM_CONTROL_FIELD_UNKNOWN"

StepGetType(o, e) ==
    IF ~o.known THEN o
    ELSE Flag(o, "C03", IF o.type = Unset THEN e.res # "ok"
                        ELSE e.res = "ok" /\ Word(e.w, 1) = o.type)

StepAdd(o, e) ==
    LET o1 == Flag(o, "C02", (e.res = "ok") = (Len(e.ct) <= MaxCt))
    IN IF e.res = "ok" THEN [o1 EXCEPT !.cts = Append(@, e.ct)] ELSE o1

StepNum(o, e) ==
    IF ~o.known THEN o
    ELSE Flag(o, "C03", e.res = "ok" /\ e.n = Len(Reported(o.type, o.cts)))

StepGet(o, e) ==
    IF ~o.known THEN o
    ELSE LET r == Reported(o.type, o.cts) IN
         IF e.idx < Len(r) THEN Flag(o, "C03", e.res = "ok" /\ e.ct = r[e.idx + 1])
         ELSE IF e.idx >= Len(o.cts) THEN Flag(o, "C03", e.res # "ok")
         ELSE o

StepMatch(o, e) ==
    IF ~o.known THEN o
    ELSE Flag(o, "C03", (e.res = "ok") = Matches(o.type, o.cts, e.q))

(* After a decode the driver reports the whole object in the same event.   *)
StepDecode(o, e) ==
    LET d == Decode(e.bytes, e.hdr)
        o1 == Flag(o, "C01", /\ (e.res = "ok") = d.ok
                             /\ e.res = "ok" => e.type = d.type /\ e.cts = d.cts)
    IN IF e.res = "ok" /\ d.ok THEN [o1 EXCEPT !.type = d.type, !.cts = d.cts, !.known = TRUE]
       ELSE [o1 EXCEPT !.known = FALSE]

Encodable(o) == /\ o.type # Unset
                /\ \A i \in 1..Len(Reported(o.type, o.cts)) : Len(Reported(o.type, o.cts)[i]) <= MaxCt
                /\ PayloadLen(Reported(o.type, o.cts)) <= MaxPayload
HdrLen(hdr) == IF hdr THEN 2 * WordLen ELSE 0
EncLen(o, hdr) == PayloadLen(Reported(o.type, o.cts)) + HdrLen(hdr)

StepSize(o, e) ==
    IF ~o.known \/ o.type = Unset THEN o
    ELSE Flag(o, "C02", IF Encodable(o) THEN e.res = "ok" /\ e.n = EncLen(o, e.hdr)
                        ELSE e.res # "ok")

(* e.out: the bytes up to the reported length; e.clean: nothing was stored *)
(* beyond the given size, nor beyond the reported length.                  *)
StepEncode(o, e) ==
    LET o1 == Flag(o, "C02", e.clean)
    IN IF ~o.known \/ o.type = Unset THEN o1
       ELSE Flag(o1, "C02",
            IF Encodable(o) /\ e.cap >= EncLen(o, e.hdr)
            THEN e.res = "ok" /\ e.n = EncLen(o, e.hdr)
                 /\ e.out = Encode(o.type, Reported(o.type, o.cts), e.hdr)
            ELSE e.res # "ok")

Step(o, e) ==
    CASE e.op = "reset"    -> StepReset(o, e)
      [] e.op = "set_type" -> StepSetType(o, e)
      [] e.op = "get_type" -> StepGetType(o, e)
      [] e.op = "add"      -> StepAdd(o, e)
      [] e.op = "num"      -> StepNum(o, e)
      [] e.op = "get"      -> StepGet(o, e)
      [] e.op = "match"    -> StepMatch(o, e)
      [] e.op = "decode"   -> StepDecode(o, e)
      [] e.op = "size"     -> StepSize(o, e)
      [] e.op = "encode"   -> StepEncode(o, e)
      [] e.op = "tname"    -> Flag(o, "C03", e.name = TypeName(Word(e.w, 1)))
      [] e.op = "fname"    -> Flag(o, "C03", e.name = FieldName(Word(e.w, 1)))
=============================================================================
