----------------------------- MODULE Collide_MC -----------------------------
(* Placing a few boxes: a box that was free stays; one that had to move ends  *)
(* clear of all its rivals unless the screen is too small; it moves only the  *)
(* way its alignment says, and never sideways or over another's place.        *)
EXTENDS Collide, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES q, hist, d
vars == <<q, hist, d>>
P(x, y, w, h, an, l) == [op |-> "place", x |-> x, y |-> y, w |-> w, hh |-> h, an |-> an, layer |-> l]
Places == {P(x, y, 20, 10, an, l) : x \in {0, 15}, y \in {0, 20, 50}, an \in {2, 8}, l \in {0, 1}} \cup {P(5, 18, 30, 25, 5, 0), P(0, 50, 20, 10, 1, 0), P(0, 30, 5, 0, 2, 0)}
Ops == Places \cup {[op |-> "fixed", x |-> 0, y |-> 38, w |-> 40, hh |-> 10, an |-> 2, layer |-> 0], [op |-> "margin", m |-> 0], [op |-> "clear"]}
Init == \E sh \in {60, 30} : q = Fresh(2 * sh) /\ hist = <<[op |-> "reset", w |-> 100, hh |-> sh]>> /\ d = [op |-> "clear"]
Next == /\ Len(hist) <= MaxLen
        /\ \E o \in Ops : LET a == Do(q, o) IN q' = a.st /\ hist' = Append(hist, o) /\ d' = [op |-> o.op, o |-> o, a |-> a.ans, was |-> q.placed, m |-> q.m]
        /\ Printing /\ Len(hist') = MaxLen + 1 => PrintT(<<"HIST", ToJson(hist')>>)
Inv == d.op = "place" =>
  LET b == d.a[1]  o == d.o  p == Push(d.was, o.layer, o.an, Boxed(o), d.m) IN
  /\ X(b) = 2 * o.x /\ W(b) = 2 * o.w /\ H(b) = 2 * o.hh
  /\ Y(b) >= 0 /\ (Y(b) + H(b) <= q.sh \/ Y(b) = 0)
  /\ Rivals(d.was, o.layer, p, d.m) = {}
  /\ b = p \/ Y(p) < 0 \/ Y(p) + H(p) > q.sh
  /\ IF Up(o.an) THEN Y(p) <= 2 * o.y ELSE Y(p) >= 2 * o.y
  /\ Rivals(d.was, o.layer, Boxed(o), d.m) = {} => p = Boxed(o)
  /\ q.placed = Append(d.was, [b |-> b, layer |-> o.layer])
=============================================================================
