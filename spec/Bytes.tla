------------------------------- MODULE Bytes -------------------------------
(* Text as sequences of UTF-8 bytes, with the few string operations the ASS   *)
(* format is defined in terms of.                                             *)
EXTENDS Integers, Sequences, TLC

LOCAL Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
LOCAL CodeOf == [c \in {SubSeq(Printable, i, i) : i \in 1..95} |-> 31 + CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = c]
\* The bytes of a printable ASCII string.
B(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

NL == 10
StartsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
EndsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, Len(t) - Len(p) + 1, Len(t)) = p
From(t, i) == SubSeq(t, i, Len(t))
Drop(t, n) == SubSeq(t, n + 1, Len(t))
Has(t, c) == \E i \in 1..Len(t) : t[i] = c

\* Index of the first byte c at or after i, 0 if none.
RECURSIVE Find(_, _, _)
Find(t, c, i) == IF i > Len(t) THEN 0 ELSE IF t[i] = c THEN i ELSE Find(t, c, i + 1)
\* Index of the last byte c at or before i, 0 if none.
RECURSIVE FindLast(_, _, _)
FindLast(t, c, i) == IF i < 1 THEN 0 ELSE IF t[i] = c THEN i ELSE FindLast(t, c, i - 1)
\* Index of the first occurrence of p at or after i, 0 if none.
RECURSIVE FindSub(_, _, _)
FindSub(t, p, i) == IF i + Len(p) - 1 > Len(t) THEN 0
                    ELSE IF (p = <<>> \/ t[i] = p[1]) /\ SubSeq(t, i, i + Len(p) - 1) = p THEN i
                    ELSE FindSub(t, p, i + 1)
Contains(t, p) == FindSub(t, p, 1) # 0

\* Length of the white-space character (Unicode White_Space) starting at i, 0 if none.
WsAt(t, i) ==
  LET c == t[i]  n == Len(t) IN
  IF c = 32 \/ (c >= 9 /\ c <= 13) THEN 1
  ELSE IF c < 194 THEN 0
  ELSE IF c = 194 THEN IF i < n /\ t[i + 1] \in {133, 160} THEN 2 ELSE 0
  ELSE IF i + 1 >= n THEN 0
  ELSE IF c = 225 /\ t[i + 1] = 154 /\ t[i + 2] = 128 THEN 3
  ELSE IF c = 226 /\ t[i + 1] = 128 /\ (t[i + 2] \in (128..138) \cup {168, 169, 175}) THEN 3
  ELSE IF c = 226 /\ t[i + 1] = 129 /\ t[i + 2] = 159 THEN 3
  ELSE IF c = 227 /\ t[i + 1] = 128 /\ t[i + 2] = 128 THEN 3
  ELSE 0
WsEnding(t, j) ==
  IF t[j] < 128 THEN (IF WsAt(t, j) = 1 THEN 1 ELSE 0)
  ELSE IF j >= 2 /\ t[j - 1] = 194 /\ WsAt(t, j - 1) = 2 THEN 2
  ELSE IF j >= 3 /\ t[j - 2] >= 225 /\ t[j - 2] <= 227 /\ WsAt(t, j - 2) = 3 THEN 3
  ELSE 0
RECURSIVE SkipWs(_, _)
SkipWs(t, i) == IF i > Len(t) THEN i ELSE LET w == WsAt(t, i) IN IF w = 0 THEN i ELSE SkipWs(t, i + w)
RECURSIVE BackWs(_, _)
BackWs(t, j) == IF j < 1 THEN j ELSE LET w == WsEnding(t, j) IN IF w = 0 THEN j ELSE BackWs(t, j - w)
TrimStart(t) == From(t, SkipWs(t, 1))
TrimEnd(t) == SubSeq(t, 1, BackWs(t, Len(t)))
Trim(t) == TrimEnd(TrimStart(t))
IsBlank(t) == SkipWs(t, 1) > Len(t)

\* Parts of t between occurrences of byte c; at most n parts when n > 0.
RECURSIVE SplitFrom(_, _, _, _, _)
SplitFrom(t, c, n, i, acc) ==
  LET k == IF n > 0 /\ Len(acc) = n - 1 THEN 0 ELSE Find(t, c, i)
  IN IF k = 0 THEN Append(acc, From(t, i)) ELSE SplitFrom(t, c, n, k + 1, Append(acc, SubSeq(t, i, k - 1)))
Split(t, c) == SplitFrom(t, c, 0, 1, <<>>)
SplitN(t, c, n) == SplitFrom(t, c, n, 1, <<>>)
RECURSIVE Join(_, _)
Join(ps, sep) == IF ps = <<>> THEN <<>> ELSE IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o sep \o Join(Tail(ps), sep)

LowerC(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Lower(t) == [i \in 1..Len(t) |-> LowerC(t[i])]
SameNoCase(a, b) == Len(a) = Len(b) /\ Lower(a) = Lower(b)
IsDigit(c) == c >= 48 /\ c <= 57
IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsHex(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE LowerC(c) - 87
IsCont(c) == c >= 128 /\ c < 192
AllDigits(t) == t # <<>> /\ \A i \in 1..Len(t) : IsDigit(t[i])
RECURSIVE DecFrom(_, _, _)
DecFrom(t, i, v) == IF i > Len(t) THEN v ELSE DecFrom(t, i + 1, v * 10 + t[i] - 48)
Dec(t) == DecFrom(t, 1, 0)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Pad2(n) == IF n < 10 THEN <<48, 48 + n>> ELSE Digits(n)

\* Lines of t: [off |-> byte offset of the line, b |-> its bytes without the newline].
RECURSIVE LinesFrom(_, _, _)
LinesFrom(t, i, acc) ==
  IF i > Len(t) THEN acc
  ELSE LET k == Find(t, NL, i) IN
       IF k = 0 THEN Append(acc, [off |-> i - 1, b |-> From(t, i)])
       ELSE LinesFrom(t, k + 1, Append(acc, [off |-> i - 1, b |-> SubSeq(t, i, k - 1)]))
Lines(t) == LinesFrom(t, 1, <<>>)

MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b

\* Comparisons: sequence of <<name, expected, observed>>; the first difference is reported.
RECURSIVE FirstDiff(_)
FirstDiff(cs) == IF cs = <<>> THEN ""
                 ELSE IF cs[1][2] # cs[1][3]
                      THEN cs[1][1] \o ": expected " \o ToString(cs[1][2]) \o " observed " \o ToString(cs[1][3])
                      ELSE FirstDiff(Tail(cs))
=============================================================================
