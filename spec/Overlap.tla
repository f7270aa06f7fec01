------------------------------ MODULE Overlap ------------------------------
(* Which events of a script are shown at the same time, found by sweeping     *)
(* over their starts and ends.  An event is <<start, end>>, shown from its    *)
(* start up to but not including its end.                                     *)
EXTENDS Integers, Sequences, FiniteSets

Shown(e) == e[1] < e[2]
\* What overlapping means ...
Meet(a, b) == Shown(a) /\ Shown(b) /\ a[1] < b[2] /\ b[1] < a[2]
Pairs(evs) == { <<i, j>> \in (1..Len(evs)) \X (1..Len(evs)) : i < j /\ Meet(evs[i], evs[j]) }

\* ... and the sweep: at every instant ends come before starts; an event that
\* starts overlaps exactly the events then on screen.
VARIABLES evs, todo, on, found
Points(es) == { <<es[i][1], 1, i>> : i \in {k \in 1..Len(es) : Shown(es[k])} } \cup
              { <<es[i][2], 0, i>> : i \in {k \in 1..Len(es) : Shown(es[k])} }
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
CONSTANTS MaxN, MaxT
Init == /\ evs \in UNION { [1..n -> (0..MaxT) \X (0..MaxT)] : n \in 0..MaxN }
        /\ todo = Points(evs) /\ on = {} /\ found = {}
Next == \E p \in todo :
          /\ \A q \in todo : ~Before(q, p)
          /\ todo' = todo \ {p}
          /\ UNCHANGED evs
          /\ IF p[2] = 1 THEN on' = on \cup {p[3]} /\ found' = found \cup { {p[3], i} : i \in on }
                         ELSE on' = on \ {p[3]} /\ UNCHANGED found
InvComplete == todo = {} => found = { {p[1], p[2]} : p \in Pairs(evs) }
InvOn == \A i \in on : Shown(evs[i])
=============================================================================
