-------------------------------- MODULE Fade --------------------------------
(* How much of an event's opacity is left at a time, as a fraction <<n, d>>;   *)
(* times are centiseconds, the tag's own are milliseconds.                    *)
EXTENDS Integers, Sequences
LOCAL Cs(ms) == ms \div 10
LOCAL Max(a, b) == IF a > b THEN a ELSE b
\* \fad(in, out): clear at both ends of the event
InOut(s, e, t, a) ==
  LET i == Cs(a[1])  o == Cs(a[2])  back == Max(e - o, 0) IN
  IF t < s + i THEN <<t - s, i>>
  ELSE IF t >= back /\ back < e THEN <<e - t, o>> ELSE <<1, 1>>
\* \fade(a1, a2, a3, t1, t2, t3, t4): the opacity left by a1, ramp, a2, ramp, a3, each 0 for opaque to 255
Ramp(x, y, n, d) == <<(255 - x) * d + ((x - y) * n), 255 * d>>
Steps(s, t, a) ==
  LET t1 == s + Cs(a[4])  t2 == Max(s + Cs(a[5]), t1)  t4 == s + Cs(a[7])  t3 == IF a[6] < a[7] THEN s + Cs(a[6]) ELSE t4 IN
  IF t <= t1 THEN <<255 - a[1], 255>>
  ELSE IF t < t2 THEN Ramp(a[1], a[2], t - t1, t2 - t1)
  ELSE IF t <= t3 THEN <<255 - a[2], 255>>
  ELSE IF t < t4 THEN Ramp(a[2], a[3], t - t3, t4 - t3)
  ELSE <<255 - a[3], 255>>
Left(s, e, t, a) == IF a = <<>> THEN <<1, 1>> ELSE IF Len(a) = 2 THEN InOut(s, e, t, a) ELSE Steps(s, t, a)
\* the way a \move has gone, as a fraction; both times 0 means the whole event
Gone(s, e, t, t1, t2) ==
  LET a == IF Cs(t1) = 0 /\ Cs(t2) = 0 THEN s ELSE s + Cs(t1)
      b == IF Cs(t1) = 0 /\ Cs(t2) = 0 THEN e ELSE s + Cs(t2) IN
  IF t <= a THEN <<0, 1>> ELSE IF t >= b THEN <<1, 1>> ELSE <<t - a, b - a>>
=============================================================================
