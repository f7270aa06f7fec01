------------------------------- MODULE Collide ------------------------------
(* Where subtitles that would cover each other are moved to.  Lengths are in  *)
(* half pixels; a box is <<x, y, width, height>>.                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
X(b) == b[1]  Y(b) == b[2]  W(b) == b[3]  H(b) == b[4]
Meets(a, b) == X(a) < X(b) + W(b) /\ X(b) < X(a) + W(a) /\ Y(a) < Y(b) + H(b) /\ Y(b) < Y(a) + H(a)
Expand(a, m) == <<X(a) - m, Y(a) - m, W(a) + 2 * m, H(a) + 2 * m>>
\* closer than the margin of both
Close(a, b, m) == Meets(Expand(a, m), Expand(b, m))
Shared(a, b) == LET w == MinI(X(a) + W(a), X(b) + W(b)) - MaxI(X(a), X(b))
                    h == MinI(Y(a) + H(a), Y(b) + H(b)) - MaxI(Y(a), Y(b)) IN
                IF w > 0 /\ h > 0 THEN w * h ELSE 0
Up(an) == an \in 1..3                        \* bottom rows stack upwards, others downwards

\* A placed subtitle: [b |-> box, layer |-> n].  Only those of the same layer are avoided.
Rivals(placed, layer, b, m) == {i \in 1..Len(placed) : placed[i].layer = layer /\ Close(placed[i].b, b, m)}
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Push(_, _, _, _, _)
Push(placed, layer, an, b, m) ==
  LET r == Rivals(placed, layer, b, m) IN
  IF r = {} THEN b
  ELSE LET y == IF Up(an) THEN MinS({Y(placed[i].b) : i \in r}) - H(b) - 2 * m
                ELSE MaxS({Y(placed[i].b) + H(placed[i].b) : i \in r}) + 2 * m IN
       Push(placed, layer, an, <<X(b), y, W(b), H(b)>>, m)
OnScreen(b, sh) == <<X(b), MaxI(0, MinI(Y(b), MaxI(0, sh - H(b)))), W(b), H(b)>>
Settle(placed, layer, an, b, m, sh) == OnScreen(Push(placed, layer, an, b, m), sh)

\* subtitles with enough priority stay; the others give way, in order of priority
ByPriority(evs) == LET ix == SetToSortSeq(1..Len(evs), LAMBDA i, j : evs[i].pri > evs[j].pri \/ (evs[i].pri = evs[j].pri /\ i < j)) IN ix
RECURSIVE Smart(_, _, _, _, _, _)
Smart(evs, ix, thr, placed, out, sh) ==
  IF ix = <<>> THEN out
  ELSE LET e == evs[ix[1]]
           b == IF e.pri >= thr THEN e.b ELSE Settle(placed, e.layer, e.an, e.b, 4, sh) IN
       Smart(evs, Tail(ix), thr, Append(placed, [b |-> b, layer |-> e.layer]), Append(out, <<ix[1], b>>), sh)

\* the free places looked at: ten pixels down at a time while there is room, then up
Hits(b, ex) == \E i \in 1..Len(ex) : Meets(b, ex[i])
Moved(b, y) == <<X(b), y, W(b), H(b)>>
Downs(b, bounds) == {k \in 0..19 : Y(b) + 20 * k + H(b) <= H(bounds)}
Ups(b) == {k \in 1..19 : Y(b) - 20 * k >= 0}
FreePlace(b, ex, bounds) ==
  LET d == {k \in Downs(b, bounds) : ~Hits(Moved(b, Y(b) + 20 * k), ex)}
      u == {k \in Ups(b) : ~Hits(Moved(b, Y(b) - 20 * k), ex)} IN
  IF d # {} THEN <<X(b), Y(b) + 20 * MinS(d)>> ELSE IF u # {} THEN <<X(b), Y(b) - 20 * MinS(u)>> ELSE <<>>

Fresh(sh) == [placed |-> <<>>, m |-> 4, sh |-> sh]
Boxed(o) == <<2 * o.x, 2 * o.y, 2 * o.w, 2 * o.hh>>
Do(q, o) ==
  CASE o.op = "margin" -> [st |-> [q EXCEPT !.m = 2 * o.m], ans |-> <<>>]
    [] o.op = "clear" -> [st |-> [q EXCEPT !.placed = <<>>], ans |-> <<>>]
    [] o.op = "fixed" -> [st |-> [q EXCEPT !.placed = Append(@, [b |-> Boxed(o), layer |-> o.layer])], ans |-> <<>>]
    [] o.op = "place" -> LET b == Settle(q.placed, o.layer, o.an, Boxed(o), q.m, q.sh) IN
                         [st |-> [q EXCEPT !.placed = Append(@, [b |-> b, layer |-> o.layer])], ans |-> <<b>>]
    [] o.op = "smart" -> LET evs == [i \in 1..Len(o.evs) |-> [b |-> Boxed(o.evs[i]), layer |-> o.evs[i].layer, an |-> o.evs[i].an, pri |-> o.evs[i].pri]] IN
                         [st |-> q, ans |-> Smart(evs, ByPriority(evs), o.thr, <<>>, <<>>, q.sh)]
    [] o.op = "free" -> LET ex == [i \in 1..Len(o.evs) |-> Boxed(o.evs[i])] IN
                        [st |-> q, ans |-> FreePlace(Boxed(o), ex, Boxed(o.bounds)) \o <<IF Hits(Boxed(o), ex) THEN 1 ELSE 0>>]
    [] o.op = "pair" -> LET a == Boxed(o.a)  b == Boxed(o.b) IN
                        \* areas in half square pixels, the centre in half pixels
                        [st |-> q, ans |-> << IF Meets(a, b) THEN 1 ELSE 0, Shared(a, b) \div 2, Expand(a, 2 * o.m), <<X(a) + (W(a) \div 2), Y(a) + (H(a) \div 2)>> >>]
=============================================================================
