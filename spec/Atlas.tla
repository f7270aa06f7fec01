-------------------------------- MODULE Atlas -------------------------------
(* A texture atlas: regions handed out lie inside it and do not overlap, and  *)
(* writing a region changes its own pixels only.  Where a region goes is left *)
(* open, and so is when the atlas counts as full - except that an empty one   *)
(* has room for anything that fits.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Inside(q, r) == r[1] >= 0 /\ r[2] >= 0 /\ r[3] >= 0 /\ r[4] >= 0 /\ r[1] + r[3] <= q.w /\ r[2] + r[4] <= q.h
Common(a, b) == /\ a[1] < b[1] + b[3] /\ b[1] < a[1] + a[3] /\ a[2] < b[2] + b[4] /\ b[2] < a[2] + a[4]
                /\ a[3] > 0 /\ a[4] > 0 /\ b[3] > 0 /\ b[4] > 0
Fits(q, w, h) == w >= 0 /\ h >= 0 /\ w <= q.w /\ h <= q.h
Fresh(w, h) == [w |-> w, h |-> h, got |-> <<>>, px |-> [i \in 1..w * h |-> 0]]
May(q, w, h, id, r) == /\ Fits(q, w, h) /\ r[3] = w /\ r[4] = h /\ Inside(q, r) /\ id = Len(q.got)
                       /\ \A i \in 1..Len(q.got) : ~Common(q.got[i], r)
Give(q, r) == [q EXCEPT !.got = Append(@, r)]
\* the rows that the data covers are written; the pixel at column x, row y is number y * w + x + 1
Paint(q, r, v, rows) == [q EXCEPT !.px = TLCEval([i \in 1..q.w * q.h |->
   LET x == (i - 1) % q.w  y == (i - 1) \div q.w IN
   IF r[1] <= x /\ x < r[1] + r[3] /\ r[2] <= y /\ y < r[2] + rows THEN v ELSE q.px[i]])]
=============================================================================
