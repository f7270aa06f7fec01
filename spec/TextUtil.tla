------------------------------ MODULE TextUtil ------------------------------
(* What the toolkit does to text before reading it: byte order marks, UTF-8   *)
(* checking and repair, cutting, and clean-up of line ends, white space and   *)
(* control characters.                                                        *)
EXTENDS Bytes, Utf8

Boms == << <<"UTF-32LE", <<255, 254, 0, 0>>>>, <<"UTF-32BE", <<0, 0, 254, 255>>>>, <<"UTF-8", <<239, 187, 191>>>>,
           <<"UTF-16LE", <<255, 254>>>>, <<"UTF-16BE", <<254, 255>>>> >>
RECURSIVE BomFrom(_, _)
BomFrom(t, i) == IF i > Len(Boms) THEN <<>> ELSE IF StartsWith(t, Boms[i][2]) THEN <<Boms[i][1], Len(Boms[i][2])>> ELSE BomFrom(t, i + 1)
Bom(t) == BomFrom(t, 1)
StripBom(t) == IF StartsWith(t, Boms[3][2]) THEN Drop(t, 3) ELSE t

\* Each run of bytes that starts a character and does not finish it, and each byte that starts none, becomes U+FFFD.
Repl == <<239, 191, 189>>
RECURSIVE RecFrom(_, _, _, _)
RecFrom(t, i, acc, n) ==
  IF i > Len(t) THEN [t |-> acc, n |-> n]
  ELSE IF CharOk(t, i) THEN RecFrom(t, i + Width(t[i]), acc \o SubSeq(t, i, i + Width(t[i]) - 1), n)
  ELSE RecFrom(t, i + (IF Good(t, i) = 0 THEN 1 ELSE Good(t, i)), acc \o Repl, n + 1)
Recover(t) == RecFrom(t, 1, <<>>, 0)
RECURSIVE CountFrom(_, _, _)
CountFrom(t, p, i) == LET k == FindSub(t, p, i) IN IF k = 0 THEN 0 ELSE 1 + CountFrom(t, p, k + Len(p))
Count(t, p) == CountFrom(t, p, 1)

RECURSIVE CutAt(_, _)
CutAt(t, n) == IF n >= Len(t) THEN Len(t) ELSE IF n = 0 \/ ~IsCont(t[n + 1]) THEN n ELSE CutAt(t, n - 1)
Truncate(t, n) == SubSeq(t, 1, CutAt(t, n))

\* --- characters -----------------------------------------------------------
\* Control character (general category Cc) at i.
IsControl(t, i) == t[i] < 32 \/ t[i] = 127 \/ (t[i] = 194 /\ i < Len(t) /\ t[i + 1] < 160)
\* Replace every character by the text F gives for it.
MapChars(t, F(_)) == LET cs == CharStarts(t)
                         RECURSIVE go(_, _)
                         go(k, acc) == IF k > Len(cs) THEN acc ELSE go(k + 1, acc \o F(cs[k]))
                     IN go(1, <<>>)
CharAt(t, i) == SubSeq(t, i, i + Width(t[i]) - 1)
RemoveControls(t) == MapChars(t, LAMBDA i : IF IsControl(t, i) /\ t[i] \notin {9, 10, 13} THEN <<>> ELSE CharAt(t, i))
PlainAss(t) == \A k \in 1..Len(CharStarts(t)) : LET i == CharStarts(t)[k] IN
                 t[i] \in {9, 10, 13} \/ (t[i] >= 32 /\ t[i] < 127) \/ (t[i] > 127 /\ ~IsControl(t, i))
Spaces(t) == MapChars(t, LAMBDA i : IF WsAt(t, i) # 0 /\ t[i] \notin {9, 10} THEN <<32>> ELSE CharAt(t, i))
RECURSIVE CollFrom(_, _, _)
CollFrom(t, i, acc) == IF i > Len(t) THEN acc
                       ELSE CollFrom(t, i + 1, IF t[i] = 32 /\ i > 1 /\ t[i - 1] = 32 THEN acc ELSE Append(acc, t[i]))
Collapse(t) == CollFrom(t, 1, <<>>)
RECURSIVE UnixFrom(_, _, _)
UnixFrom(t, i, acc) == IF i > Len(t) THEN acc
                       ELSE IF t[i] = 13 THEN UnixFrom(t, i + (IF i < Len(t) /\ t[i + 1] = 10 THEN 2 ELSE 1), Append(acc, 10))
                       ELSE UnixFrom(t, i + 1, Append(acc, t[i]))
UnixEnds(t) == UnixFrom(t, 1, <<>>)
TrimLines(t) == LET ls == Lines(t) IN Join([i \in 1..Len(ls) |-> Trim(ls[i].b)], <<10>>)

\* --- guessing -------------------------------------------------------------
Marks == << B("[Script Info]"), B("[V4+ Styles]"), B("[Events]"), B("[Fonts]"), B("[Graphics]"), B("Dialogue:"), B("Comment:"),
            B("ScriptType:"), B("PlayRes"), B("Style:") >>
LooksAss(t) == \E i \in 1..Len(Marks) : Contains(t, Marks[i])
\* name, confidence in percent, byte order mark
Guess(t) == IF Bom(t) # <<>> THEN <<Bom(t)[1], 100, TRUE>>
            ELSE IF IsUtf8(t) THEN <<"UTF-8", IF LooksAss(t) THEN 95 ELSE 80, FALSE>>
            ELSE <<"Windows-1252", 60, FALSE>>
=============================================================================
