------------------------------ MODULE Codec_MC ------------------------------
(* The codecs are inverse to each other and refuse exactly what is not in     *)
(* their language; every text over the alphabets up to MaxLen pieces is also  *)
(* printed for the implementation.                                            *)
EXTENDS Codec, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES kind, s, n
TimePieces == << B("0"), B("7"), B("59"), B("60"), B(":"), B("."), B("+"), B("-"), B(" "), B("11930"), B("4294967295"), B("0:0:"), B(":27:52.") >>
ColourPieces == << B("&H"), B("&h"), B("&"), B("0x"), B("0"), B("fF"), B("1234"), B("00abCD"), B("+"), B("g"), B(" "), <<195, 169>> >>
UUBytes == {0, 1, 63, 64, 127, 255}
Pieces == IF kind = "time" THEN TimePieces ELSE ColourPieces
Init == kind \in {"time", "colour", "uu"} /\ s = <<>> /\ n = 0
Grow(x) == s' = s \o x /\ n' = n + 1 /\ UNCHANGED kind
Out(ops) == PrintT(<<"HIST", ToJson(ops)>>)
Emit == CASE kind = "time" -> Out(<<[op |-> "reset", k |-> "time", s |-> s']>>)
          [] kind = "colour" -> Out(<<[op |-> "reset", k |-> "colour", s |-> s']>>) /\ Out(<<[op |-> "reset", k |-> "hex", s |-> s']>>)
          [] OTHER -> Out(<<[op |-> "reset", k |-> "uuenc", d |-> s', ls |-> EncodeUU(s')]>>)
Next == /\ n < (IF kind = "uu" THEN MaxLen + 1 ELSE MaxLen)
        /\ \/ kind # "uu" /\ \E i \in 1..Len(Pieces) : Grow(Pieces[i])
           \/ kind = "uu" /\ \E x \in UUBytes : Grow(<<x>>)
        /\ Printing => Emit
\* Reading a time and writing it gives a text that reads as the same time.
InvTime == kind = "time" => LET v == ParseTime(s) IN v = Bad \/ (ParseTime(FormatTime(v)) = v /\ Leq(v, MaxTime))
\* A canonical time is written back as it was.
InvColour == kind = "colour" => LET v == ParseColour(s) IN v = Bad \/ ParseColour(WriteColour(v)) = v
InvHex == kind = "colour" => LET v == ParseHex(s) IN (v = Bad) = (s = <<>> \/ Len(s) > 8 \/ ~HexRun(s))
InvUU == kind = "uu" => DecodeUU(EncodeUU(s), 1, <<>>) = s
InvMinus == kind = "time" => LET v == ParseTime(s) IN v = Bad \/ (Minus(v, v) = <<0, 0>> /\ Minus(v, <<0, 0>>) = v)
=============================================================================
