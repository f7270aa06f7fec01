------------------------------ MODULE Regions -------------------------------
(* Dirty regions: whatever was marked stays covered until it is cleared, and  *)
(* nothing outside the bounding box of what was marked is listed.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
Inside(a, b) == b.x <= a.x /\ b.y <= a.y /\ a.x + a.w <= b.x + b.w /\ a.y + a.hh <= b.y + b.hh
Hull(a, b) == LET x == MinI(a.x, b.x)  y == MinI(a.y, b.y) IN
              [x |-> x, y |-> y, w |-> MaxI(a.x + a.w, b.x + b.w) - x, hh |-> MaxI(a.y + a.hh, b.y + b.hh) - y]
\* a point of both exists
Overlap(a, b) == /\ MaxI(a.x, b.x) < MinI(a.x + a.w, b.x + b.w) /\ MaxI(a.y, b.y) < MinI(a.y + a.hh, b.y + b.hh)
Apart(a, b) == a.x + a.w < b.x \/ b.x + b.w < a.x \/ a.y + a.hh < b.y \/ b.y + b.hh < a.y
Empty(a) == a.w = 0 \/ a.hh = 0
RECURSIVE HullOf(_)
HullOf(s) == IF Len(s) = 1 THEN s[1] ELSE Hull(s[1], HullOf(Tail(s)))
Point(a, x, y) == a.x <= x /\ x < a.x + a.w /\ a.y <= y /\ y < a.y + a.hh

\* what a list of regions must satisfy after the regions in `marked` were added
Sound(list, marked) ==
  IF marked = <<>> THEN list = <<>>
  ELSE /\ \A i \in 1..Len(marked) : Empty(marked[i]) \/ \E j \in 1..Len(list) : Inside(marked[i], list[j])
       /\ \A j \in 1..Len(list) : Inside(list[j], HullOf(marked))
       /\ Len(list) <= Len(marked)
\* the way it is done: a region grows the first one it overlaps
RECURSIVE Grow(_, _)
Grow(list, r) == IF list = <<>> THEN <<r>> ELSE IF Overlap(list[1], r) THEN <<Hull(list[1], r)>> \o Tail(list) ELSE <<list[1]>> \o Grow(Tail(list), r)
=============================================================================
