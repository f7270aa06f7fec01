-------------------------------- MODULE Utf8 --------------------------------
(* Well-formed UTF-8 (Unicode 3.9, table 3-7), byte by byte.                  *)
EXTENDS Integers, Sequences

LOCAL Tail1(c) == c >= 128 /\ c <= 191
\* Bytes of the character a lead byte starts, 0 if it starts none.
Width(c) == IF c < 128 THEN 1 ELSE IF c >= 194 /\ c <= 223 THEN 2
            ELSE IF c >= 224 /\ c <= 239 THEN 3 ELSE IF c >= 240 /\ c <= 244 THEN 4 ELSE 0
\* May c be the k-th byte (2..4) of the character that lead starts?
Follows(lead, k, c) ==
  IF k = 2 THEN
    CASE lead = 224 -> c >= 160 /\ c <= 191
      [] lead = 237 -> c >= 128 /\ c <= 159
      [] lead = 240 -> c >= 144 /\ c <= 191
      [] lead = 244 -> c >= 128 /\ c <= 143
      [] OTHER -> Tail1(c)
  ELSE Tail1(c)
\* How many bytes at i are right so far: Width if the character is complete.
Good(t, i) ==
  LET w == Width(t[i]) IN
  IF w = 0 THEN 0
  ELSE IF w = 1 THEN 1
  ELSE IF i + 1 > Len(t) \/ ~Follows(t[i], 2, t[i + 1]) THEN 1
  ELSE IF w = 2 THEN 2
  ELSE IF i + 2 > Len(t) \/ ~Follows(t[i], 3, t[i + 2]) THEN 2
  ELSE IF w = 3 THEN 3
  ELSE IF i + 3 > Len(t) \/ ~Follows(t[i], 4, t[i + 3]) THEN 3 ELSE 4
CharOk(t, i) == Width(t[i]) # 0 /\ Good(t, i) = Width(t[i])

\* Length of the longest well-formed prefix made of whole characters.
RECURSIVE ValidFrom(_, _)
ValidFrom(t, i) == IF i > Len(t) \/ ~CharOk(t, i) THEN i - 1 ELSE ValidFrom(t, i + Width(t[i]))
ValidUpTo(t) == ValidFrom(t, 1)
IsUtf8(t) == ValidUpTo(t) = Len(t)
\* The text is well formed except that its last character is not finished.
Unfinished(t) == LET v == ValidUpTo(t) IN v < Len(t) /\ Width(t[v + 1]) # 0 /\ v + Good(t, v + 1) = Len(t)
\* Bytes a decoder skips as one error at a place where no character is right (0: unfinished).
ErrorLen(t, v) == IF Unfinished(t) THEN 0 ELSE LET g == Good(t, v + 1) IN IF g = 0 THEN 1 ELSE g

\* Characters of t that start at bytes.
RECURSIVE CharsFrom(_, _, _)
CharsFrom(t, i, acc) == IF i > Len(t) THEN acc ELSE CharsFrom(t, i + Width(t[i]), Append(acc, i))
CharStarts(t) == CharsFrom(t, 1, <<>>)
=============================================================================
