------------------------------- MODULE Stream -------------------------------
(* The streaming reader: bytes arrive in chunks cut anywhere; what has been   *)
(* read depends on the bytes only, never on where they were cut.              *)
(* Lines end at \n, \r or \r\n; a chunk that is not text is refused whole.    *)
EXTENDS Bytes, Utf8

Sections == << <<B("Script Info"), "ScriptInfo">>, <<B("V4+ Styles"), "Styles">>, <<B("V4 Styles"), "Styles">>,
               <<B("V4++ Styles"), "Styles">>, <<B("Events"), "Events">>, <<B("Fonts"), "Fonts">>, <<B("Graphics"), "Graphics">> >>
KindOf(name) == LET I == {i \in 1..Len(Sections) : Sections[i][1] = name}
                IN IF I = {} THEN "Unknown" ELSE Sections[CHOOSE i \in I : TRUE][2]
PFmt == B("Format:")
PDialogue == B("Dialogue:")
PComment == B("Comment:")
Note == B("!:")

\* at: "top", "in" a section, or in the "event" just begun; fmts: <<>> or <<text>>.
Line0 == [n |-> 0, at |-> "top", kind |-> "", sec |-> "", efmt |-> <<>>, sfmt |-> <<>>]
ReadLine(s0, line) ==
  LET s == [s0 EXCEPT !.n = @ + 1]  tr == Trim(line) IN
  IF tr = <<>> \/ tr[1] = 59 \/ StartsWith(tr, Note) THEN s
  ELSE IF tr[1] = 91 /\ tr[Len(tr)] = 93 THEN
    LET k == KindOf(Trim(SubSeq(tr, 2, Len(tr) - 1))) IN
    [s EXCEPT !.at = "in", !.kind = k, !.sec = k, !.efmt = IF k = "Events" THEN <<>> ELSE @,
              !.sfmt = IF k = "Styles" THEN <<>> ELSE @]
  ELSE CASE s.at = "top" -> s
         [] s.at = "event" -> [s EXCEPT !.at = "in"]
         [] s.kind = "Styles" /\ StartsWith(tr, PFmt) -> [s EXCEPT !.sfmt = <<Trim(Drop(tr, 7))>>]
         [] s.kind = "Events" /\ StartsWith(tr, PFmt) -> [s EXCEPT !.efmt = <<Trim(Drop(tr, 7))>>]
         [] s.kind = "Events" /\ (StartsWith(tr, PDialogue) \/ StartsWith(tr, PComment)) -> [s EXCEPT !.at = "event"]
         [] OTHER -> s

\* --- bytes ----------------------------------------------------------------
New == [ln |-> Line0, buf |-> <<>>, cr |-> FALSE, pend |-> <<>>]
EndLine(s) == [s EXCEPT !.ln = ReadLine(s.ln, s.buf), !.buf = <<>>]
Byte(s, c) == IF c = 10 THEN (IF s.cr THEN [s EXCEPT !.cr = FALSE] ELSE EndLine(s))
              ELSE IF c = 13 THEN [EndLine(s) EXCEPT !.cr = TRUE]
              ELSE [s EXCEPT !.buf = Append(@, c), !.cr = FALSE]
RECURSIVE TakeFrom(_, _, _)
TakeFrom(s, t, i) == IF i > Len(t) THEN s ELSE TakeFrom(Byte(s, t[i]), t, i + 1)

Refused(s, chunk) == LET t == s.pend \o chunk IN ~IsUtf8(t) /\ ~Unfinished(t)
Feed(s, chunk) ==
  LET t == s.pend \o chunk  v == ValidUpTo(t) IN
  IF Refused(s, chunk) THEN s
  ELSE [TakeFrom(s, SubSeq(t, 1, v), 1) EXCEPT !.pend = Drop(t, v)]
CanFinish(s) == s.pend = <<>>
=============================================================================
