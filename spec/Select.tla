------------------------------- MODULE Select -------------------------------
(* Which events are shown at a time, and what changed since the last call.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

At(t) == IF t < 0 THEN 0 ELSE t              \* a time that cannot be read counts as 0
Shown(e, t, com) == /\ e.ty = "Dialogue" \/ (e.ty = "Comment" /\ com)
                    /\ At(e.s) <= t /\ t < At(e.e)
Sorted(S) == SetToSortSeq(S, <)
Active(evs, t, com) == {i \in 1..Len(evs) : Shown(evs[i], t, com)}
\* texts are known by what they carry
Moves(tx) == tx \in {"{\\t(\\fs9)}a", "{\\move(1,2,3,4)}a", "{\\fade(1,2,3,4,5,6,7)}a", "{\\fad(9,9)}a"}
Karaoke(tx) == tx \in {"{\\k9}a", "{\\K9}a", "{\\kf9}a"}
Animated(e, t) == Moves(e.tx) \/ (Karaoke(e.tx) /\ e.s >= 0 /\ t > e.s)
Fresh == [prev |-> {}, last |-> -1, com |-> FALSE, evs |-> <<>>]
Nothing == [act |-> <<>>, new |-> <<>>, gone |-> <<>>, dirty |-> FALSE]
Choose(q, t) ==
  LET a == Active(q.evs, t, q.com)
      n == a \ q.prev  g == q.prev \ a
      far == q.last < 0 \/ t - q.last > 100 \/ q.last - t > 100 IN
  [st |-> [q EXCEPT !.prev = a, !.last = t],
   out |-> [act |-> Sorted(a), new |-> Sorted(n), gone |-> Sorted(g),
            dirty |-> n # {} \/ g # {} \/ far \/ \E i \in a : Animated(q.evs[i], t)]]
Do(q, o) ==
  CASE o.op = "script" -> [st |-> [q EXCEPT !.evs = IF o.secs = <<>> THEN <<>> ELSE o.secs[1]], out |-> Nothing]
    [] o.op = "comments" -> [st |-> [q EXCEPT !.com = o.on], out |-> Nothing]
    [] o.op = "forget" -> [st |-> [q EXCEPT !.prev = {}, !.last = -1], out |-> Nothing]
    [] o.op = "select" -> Choose(q, o.t)
=============================================================================
