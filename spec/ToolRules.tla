----------------------------- MODULE ToolRules -----------------------------
(***************************************************************************)
(* fstrm_dump and fstrm_replay: what a file means, byte by byte, and what  *)
(* the programs do with it (properties P05 and P06).                       *)
(* A stream is a sequence of cells: a byte 0..255, or -k for all of block  *)
(* k, a data frame's long content, of big[k] bytes.                        *)
(* Events                                                                  *)
(*   dump in big copy lim bad out lens rc cop                              *)
(*       fstrm_dump on a file (cells in), with a copy, where at most lim   *)
(*       bytes of it fit, or it cannot be created (bad); lines on standard *)
(*       output, lengths reported, exit status, contents of the copy       *)
(*   replay ct files big recv rx rc                                        *)
(*       fstrm_replay of files [open, in]; receiver [acc, all, fin]:       *)
(*       accepts, reads everything, confirms the end; what it received     *)
(***************************************************************************)
EXTENDS Control

CONSTANTS MaxFrame
BIG == 1000000000
ToolInit == [bad |-> {}]

Num(b, i) == IF WordLen = 1 THEN b[i]
             ELSE IF b[i] # 0 THEN BIG ELSE b[i+1] * 65536 + b[i+2] * 256 + b[i+3]
(* The cell after content of n bytes that begins at cell i; 0: cut off.    *)
After(b, big, i, n) ==
    IF i <= Len(b) /\ b[i] < 0
    THEN IF big[-b[i]] = n THEN i + 1 ELSE IF big[-b[i]] < n /\ i = Len(b) THEN 0 ELSE Assert(FALSE, "block")
    ELSE IF n <= Len(b) - i + 1 THEN i + n ELSE 0

(* fr: the frames before the damage, or the end; may: a reader may also    *)
(* give up after that many of them (at a control frame that has no         *)
(* business there, or a frame that it may find too long).                  *)
RECURSIVE Frames(_, _, _, _, _)
Frames(b, big, i, fr, may) ==
    LET Res(end) == [ok |-> TRUE, cts |-> <<>>, fr |-> fr, may |-> may, end |-> end]
    IN IF Len(b) - i + 1 < WordLen THEN Res("bad")
       ELSE LET n == Num(b, i)  s == i + WordLen
            IN IF n > 0
               THEN LET j == After(b, big, s, n)
                    IN IF j = 0 THEN Res("bad")
                       ELSE Frames(b, big, j, Append(fr, SubSeq(b, s, j - 1)), IF n > MaxFrame THEN may \cup {Len(fr)} ELSE may)
               ELSE IF Len(b) - s + 1 < WordLen THEN Res("bad")
               ELSE LET m == Num(b, s)  t == s + WordLen
                    IN IF m > MaxPayload \/ m > Len(b) - t + 1 THEN Res("bad")
                       ELSE LET d == DecodePayload(SubSeq(b, t, t + m - 1))
                            IN IF m >= WordLen /\ Num(b, t) \notin Types THEN Frames(b, big, t + m, fr, may)   \* of unknown type: skipped
                               ELSE IF ~d.ok THEN Res("bad")
                               ELSE IF d.type = STOP THEN Res(IF t + m > Len(b) THEN "stop" ELSE "more")
                               ELSE Frames(b, big, t + m, fr, may \cup {Len(fr)})
NotAStream == [ok |-> FALSE, cts |-> <<>>, fr |-> <<>>, may |-> {}, end |-> "bad"]
Parse(b, big) ==
    IF Len(b) < 2 * WordLen THEN NotAStream
    ELSE IF Num(b, 1) # 0 THEN NotAStream
    ELSE LET m == Num(b, WordLen + 1)  t == 2 * WordLen + 1
         IN IF m > MaxPayload \/ m > Len(b) - t + 1 THEN NotAStream
            ELSE LET d == DecodePayload(SubSeq(b, t, t + m - 1))
                 IN IF ~d.ok \/ d.type # START THEN NotAStream
                    ELSE [Frames(b, big, t + m, <<>>, {}) EXCEPT !.cts = d.cts]

Bytes(f, big) == IF f # <<>> /\ f[1] < 0 THEN big[-f[1]] ELSE Len(f)
EncN(n) == IF WordLen = 1 THEN <<n>> ELSE <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
RECURSIVE Data(_, _)
Data(fr, big) == IF fr = <<>> THEN <<>> ELSE EncN(Bytes(Head(fr), big)) \o Head(fr) \o Data(Tail(fr), big)
Stream(cts, fr, big) == Encode(START, cts, TRUE) \o Data(fr, big) \o Encode(STOP, <<>>, TRUE)
RECURSIVE SizeOf(_, _)
SizeOf(b, big) == IF b = <<>> THEN 0 ELSE (IF Head(b) < 0 THEN big[-Head(b)] ELSE 1) + SizeOf(Tail(b), big)
IsPrefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

---------------------------------------------------------------------------
(* The line for a frame: a blank, and the content quoted.                  *)
Hex(d) == IF d < 10 THEN 48 + d ELSE 87 + d
QuoteByte(c) == IF c < 0 THEN <<c>>
                ELSE IF c = 34 THEN <<92, 34>>
                ELSE IF c \in 32..126 THEN <<c>>
                ELSE <<92, 120, Hex(c \div 16), Hex(c % 16)>>
Line(f) == <<32, 34>> \o Cat([i \in 1..Len(f) |-> QuoteByte(f[i])]) \o <<34>>
FramesOf(p, k) == SubSeq(p.fr, 1, k)
Lines(p, k) == [i \in 1..k |-> Line(p.fr[i])]
Upto(p) == p.may \cup {Len(p.fr)}

DumpOk(e) ==
    LET p == Parse(e.in, e.big)
        \* having shown k frames and then stopped
        Fine(k) == LET whole == Stream(p.cts, FramesOf(p, k), e.big)
                       fits == ~e.copy \/ SizeOf(whole, e.big) <= e.lim
                   IN /\ e.out = Lines(p, k)
                      /\ e.lens = [i \in 1..k |-> Bytes(p.fr[i], e.big)]
                      /\ fits
                      /\ e.copy => e.cop = whole
                      /\ \/ p.end = "more"
                         \/ k = Len(p.fr) /\ p.end = "stop" /\ e.rc = 0
                         \/ (k \in p.may \/ p.end = "bad") /\ e.rc # 0
        \* the copy failed
        Short(k) == LET whole == Stream(p.cts, FramesOf(p, k), e.big)
                    IN /\ e.copy /\ SizeOf(whole, e.big) > e.lim
                       /\ e.rc # 0
                       /\ Len(e.out) <= k /\ e.out = Lines(p, Len(e.out))
                       /\ e.lens = [i \in 1..Len(e.out) |-> Bytes(p.fr[i], e.big)]
                       /\ IsPrefix(e.cop, whole)
    IN IF ~p.ok THEN e.out = <<>> /\ e.lens = <<>> /\ e.rc # 0 /\ e.cop \in {<<>>, Stream(<<>>, <<>>, <<>>)}
       ELSE IF e.bad THEN e.rc # 0 /\ Len(e.out) <= Len(p.fr) /\ e.out = Lines(p, Len(e.out))
       ELSE \E k \in Upto(p) : Fine(k) \/ Short(k)

---------------------------------------------------------------------------
(* What the files contribute: all possible sequences of frames.            *)
RECURSIVE Contents(_, _, _, _)
Contents(files, ct, big, acc) ==
    IF files = <<>> THEN acc
    ELSE LET f == Head(files)
             p == IF f.open THEN Parse(f.in, big) ELSE NotAStream
             use == p.ok /\ Matches(START, p.cts, <<ct>>)
         IN Contents(Tail(files), ct, big, IF use THEN {a \o FramesOf(p, k) : a \in acc, k \in Upto(p)} ELSE acc)
Intact(f, ct, big) == f.open /\ LET p == Parse(f.in, big) IN p.ok /\ p.end = "stop" /\ p.may = {} /\ Matches(START, p.cts, <<ct>>)

ReplayOk(e) ==
    LET ready == Encode(READY, <<e.ct>>, TRUE)
        all == {ready \o Stream(<<e.ct>>, c, e.big) : c \in Contents(e.files, e.ct, e.big, {<<>>})}
        r == e.recv
    IN /\ IF ~r.acc THEN IsPrefix(e.rx, ready) /\ (r.all => e.rx = ready)
          ELSE IF r.all THEN e.rx \in all
          ELSE \E s \in all : IsPrefix(e.rx, s)
       /\ e.rc = 0 => r.acc /\ r.all /\ r.fin
       /\ (r.acc /\ r.all /\ r.fin /\ \A i \in DOMAIN e.files : Intact(e.files[i], e.ct, e.big)) => e.rc = 0

ToolStep(o, e) ==
    CASE e.e = "dump" -> Flag(o, "P06", DumpOk(e))
      [] e.e = "replay" -> Flag(o, "P05", ReplayOk(e))
      [] OTHER -> [o EXCEPT !.bad = @ \cup {"P05", "P06"}]
=============================================================================
