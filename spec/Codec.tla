------------------------------- MODULE Codec -------------------------------
(* The textual encodings of ASS: times, colours, hexadecimal numbers and      *)
(* UU-encoded data.  Times run to 2^32-1 centiseconds, beyond TLC's integers, *)
(* so they are pairs <<hours, rest>> with rest < 360000.                      *)
EXTENDS Bytes

HourCs == 360000
MaxTime == <<11930, 167295>>          \* 2^32-1 centiseconds
Bad == <<>>                           \* not a time / not a colour
DOT == 46
PLUS == 43

Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = 48 THEN StripZeros(Tail(d)) ELSE d
\* Decimal digits divided by 360000, as <<quotient, remainder>>; at most 10 digits.
RECURSIVE DivH(_, _, _)
DivH(d, i, acc) == IF i > Len(d) THEN acc
                   ELSE LET r == acc[2] * 10 + d[i] - 48
                        IN DivH(d, i + 1, <<acc[1] * 10 + (r \div HourCs), r % HourCs>>)
\* An unsigned 32-bit number, with an optional sign; Bad otherwise.
Unsigned(t) == IF t # <<>> /\ t[1] = PLUS THEN Tail(t) ELSE t
U32(t) == IF ~AllDigits(t) THEN Bad
          ELSE LET d == StripZeros(t) IN
               IF Len(d) > 10 THEN Bad
               ELSE LET v == DivH(d, 1, <<0, 0>>) IN IF Leq(v, MaxTime) THEN v ELSE Bad
Small(v) == IF v[1] > 0 THEN 999 ELSE MinOf(v[2], 999)

\* H:MM:SS.CC; the fraction counts centiseconds however many digits it has, and
\* whatever follows a second point is ignored.
ParseTime(t) ==
  LET p == Split(t, 58) IN
  IF Len(p) # 3 THEN Bad
  ELSE LET s == Split(p[3], DOT)
           h == U32(Unsigned(p[1]))  m == U32(Unsigned(p[2]))  sec == U32(Unsigned(s[1]))
           cs == IF Len(s) > 1 THEN U32(s[2]) ELSE <<0, 0>>
       IN IF h = Bad \/ m = Bad \/ sec = Bad \/ cs = Bad THEN Bad
          ELSE IF Small(m) >= 60 \/ Small(sec) >= 60 THEN Bad
          ELSE IF h[1] > 0 \/ h[2] > MaxTime[1] THEN Bad
          ELSE LET rest == m[2] * 6000 + sec[2] * 100 + cs[2]
                   v == <<h[2] + cs[1] + (rest \div HourCs), rest % HourCs>>
               IN IF Leq(v, MaxTime) THEN v ELSE Bad
FormatTime(v) == Digits(v[1]) \o <<58>> \o Pad2(v[2] \div 6000) \o <<58>>
                 \o Pad2((v[2] % 6000) \div 100) \o <<DOT>> \o Pad2(v[2] % 100)
\* b - a, or nothing when a is later.
Minus(b, a) == IF Leq(b, a) THEN <<0, 0>>
               ELSE IF b[2] >= a[2] THEN <<b[1] - a[1], b[2] - a[2]>> ELSE <<b[1] - a[1] - 1, b[2] + HourCs - a[2]>>

\* --- colours: &HAABBGGRR&, the prefix and the alpha optional ------------------
HexRun(t) == \A i \in 1..Len(t) : IsHex(t[i])
AmpH == {<<38, 72>>, <<38, 104>>}
ColourDigits(t0) ==
  LET t == Trim(t0)  pre == IF Len(t) < 2 THEN t ELSE SubSeq(t, 1, 2) IN
  IF pre \in AmpH THEN (IF t[Len(t)] = 38 THEN SubSeq(t, 3, Len(t) - 1) ELSE Drop(t, 2))
  ELSE IF pre = <<48, 120>> THEN Drop(t, 2)
  ELSE t
Byte2(t, i) == HexVal(t[i]) * 16 + HexVal(t[i + 1])
\* <<red, green, blue, alpha>> or Bad.
ParseColour(t) ==
  LET h == ColourDigits(t) IN
  IF ~HexRun(h) THEN Bad
  ELSE IF Len(h) = 6 THEN <<Byte2(h, 5), Byte2(h, 3), Byte2(h, 1), 0>>
  ELSE IF Len(h) = 8 THEN <<Byte2(h, 7), Byte2(h, 5), Byte2(h, 3), Byte2(h, 1)>>
  ELSE Bad
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Hex2(n) == <<HexDigit(n \div 16), HexDigit(n % 16)>>
WriteColour(c) == <<38, 72>> \o Hex2(c[4]) \o Hex2(c[3]) \o Hex2(c[2]) \o Hex2(c[1]) \o <<38>>
\* Up to eight hex digits as <<high 16 bits, low 16 bits>>, or Bad.
RECURSIVE HexLimbs(_, _, _)
HexLimbs(t, i, v) == IF i > Len(t) THEN v
                     ELSE LET w == v[2] * 16 + HexVal(t[i])
                          IN HexLimbs(t, i + 1, <<(v[1] * 16 + w \div 65536) % 65536, w % 65536>>)
ParseHex(t) == IF t = <<>> \/ Len(t) > 8 \/ ~HexRun(t) THEN Bad ELSE HexLimbs(t, 1, <<0, 0>>)

\* --- UU data -------------------------------------------------------------------
Sextet(c) == (c + 224) % 64          \* (c - 32) mod 64
UUChar(n) == 32 + n
\* Character i of a line, spaces past its end.
At(t, i) == IF i <= Len(t) THEN t[i] ELSE 32
Triple(t, k) ==
  LET a == Sextet(At(t, k))  b == Sextet(At(t, k + 1))  c == Sextet(At(t, k + 2))  d == Sextet(At(t, k + 3))
  IN << a * 4 + b \div 16, (b % 16) * 16 + c \div 4, (c % 4) * 64 + d >>
UUByte(t, j) == Triple(t, 2 + ((j - 1) \div 3) * 4)[1 + ((j - 1) % 3)]
CharsFor(t) == ((Len(t) + 2) \div 4) * 3      \* bytes carried by the groups present
DecodeLine(t) == [j \in 1..MinOf(t[1] - 32, CharsFor(t)) |-> UUByte(t, j)]
StripCrLf(t) == LET RECURSIVE Go(_)
                    Go(n) == IF n = 0 \/ t[n] \notin {10, 13} THEN n ELSE Go(n - 1)
                IN SubSeq(t, 1, Go(Len(t)))
UUEnd == <<101, 110, 100>>
RECURSIVE DecodeUU(_, _, _)
DecodeUU(ls, i, acc) ==
  IF i > Len(ls) THEN acc
  ELSE LET t == StripCrLf(TrimStart(ls[i])) IN
       IF t = <<>> THEN DecodeUU(ls, i + 1, acc)
       ELSE IF t = UUEnd \/ StartsWith(t, UUEnd \o <<32>>) THEN acc
       ELSE IF t[1] < 32 \/ t[1] > 77 THEN DecodeUU(ls, i + 1, acc)
       ELSE IF t[1] = 32 THEN acc
       ELSE DecodeUU(ls, i + 1, acc \o DecodeLine(t))
\* Writing: groups of three bytes, lines of at most 45.
Group(d, k) == LET a == d[k]  b == IF k < Len(d) THEN d[k + 1] ELSE 0  c == IF k + 1 < Len(d) THEN d[k + 2] ELSE 0
               IN << UUChar(a \div 4), UUChar((a % 4) * 16 + b \div 16), UUChar((b % 16) * 4 + c \div 64), UUChar(c % 64) >>
RECURSIVE Groups(_, _)
Groups(d, k) == IF k > Len(d) THEN <<>> ELSE Group(d, k) \o Groups(d, k + 3)
RECURSIVE EncodeUU(_)
EncodeUU(d) == IF d = <<>> THEN <<>>
               ELSE LET n == MinOf(45, Len(d)) IN
                    << <<UUChar(n)>> \o Groups(SubSeq(d, 1, n), 1) >> \o EncodeUU(Drop(d, n))

\* --- names ---------------------------------------------------------------------
Forbidden == {44, 58, 123, 125}
ControlAt(t, i) == \/ (t[i] < 32 /\ t[i] # 9) \/ t[i] = 127
                   \/ (t[i] = 194 /\ i < Len(t) /\ t[i + 1] < 160)
ValidName(t) == t # <<>> /\ \A i \in 1..Len(t) : t[i] \notin Forbidden /\ ~ControlAt(t, i)
=============================================================================
