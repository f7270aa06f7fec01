------------------------------- MODULE Frames -------------------------------
(* A frame is a function of what is shown: the script's settings and styles,  *)
(* the events active at the time with everything they say, the frame size,    *)
(* and the time itself only if one of them changes while it is shown.         *)
(* Nothing rendered before, by this renderer or another, has a part in it.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

At(t) == IF t < 0 THEN 0 ELSE t              \* a time that cannot be read counts as 0
Shown(e, t) == e.ty = "Dialogue" /\ At(e.s) <= t /\ t < At(e.e)
Showing(evs, t) == SelectSeq(evs, LAMBDA e : Shown(e, t))
\* an event says itself whether it changes while it is shown (ch)
Changing(evs) == \E i \in 1..Len(evs) : evs[i].ch
\* what a frame depends on; of an event that does not change the end has no part in it
Part(e) == IF e.ch THEN e ELSE [e EXCEPT !.e = 0]
Key(q, kind, t) == LET a == Showing(q.script.evs, t) IN
  [kind |-> kind, w |-> q.w, h |-> q.h, info |-> q.script.info, styles |-> q.script.styles, order |-> q.script.order,
   evs |-> [i \in 1..Len(a) |-> Part(a[i])], t |-> IF Changing(a) THEN t ELSE -1]
NoScript == [info |-> "", styles |-> "", order |-> <<>>, evs |-> <<>>]
Fresh(w, h) == [w |-> w, h |-> h, script |-> NoScript, seen |-> <<>>]
=============================================================================
