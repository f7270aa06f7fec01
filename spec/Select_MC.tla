----------------------------- MODULE Select_MC ------------------------------
(* Histories over a handful of scripts and times: what is selected depends on *)
(* the script, the time and the comment switch alone, never on what was       *)
(* selected before, and the changes reported lead from one selection to the   *)
(* next.                                                                      *)
EXTENDS Select, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES q, hist, d
vars == <<q, hist, d>>
E(ty, s, e, tx) == [ty |-> ty, s |-> s, e |-> e, tx |-> tx]
D(s, e) == E("Dialogue", s, e, "a")
\* scripts of equal length and layout, so that one may lie exactly where another lay
Scripts == {<< <<D(100, 200), D(200, 300)>> >>, << <<D(200, 300), D(100, 200)>> >>, << <<D(100, 300), E("Dialogue", 150, 200, "b")>> >>,
            << <<E("Comment", 100, 200, "a"), E("Dialogue", 100, 200, "{\\k9}a"), D(-1, 150)>> >>, << <<E("Dialogue", 0, 300, "{\\fad(9,9)}a")>> >>,
            << <<D(300, 100)>>, <<D(100, 200)>> >>, <<>>}
Ops == [op : {"script"}, secs : Scripts] \cup [op : {"select"}, t : {0, 100, 150, 199, 200, 300}] \cup {[op |-> "comments", on |-> TRUE], [op |-> "comments", on |-> FALSE], [op |-> "forget"]}
Init == q = Fresh /\ hist = <<[op |-> "reset"]>> /\ d = [op |-> "reset", a |-> Nothing, was |-> {}, t |-> 0]
Next == /\ Len(hist) <= MaxLen
        /\ \E o \in Ops : LET a == Do(q, o) IN
             /\ Len(hist) = MaxLen => o.op = "select"
             /\ q' = a.st /\ hist' = Append(hist, o) /\ d' = [op |-> o.op, a |-> a.out, was |-> q.prev, t |-> IF o.op = "select" THEN o.t ELSE 0]
        /\ Printing /\ Len(hist') = MaxLen + 1 => PrintT(<<"HIST", ToJson(hist')>>)
SetOf(x) == {x[i] : i \in 1..Len(x)}
Inv == d.op = "select" =>
  /\ \A i \in 1..Len(q.evs) : i \in SetOf(d.a.act) <=>
        (q.evs[i].ty = "Dialogue" \/ (q.com /\ q.evs[i].ty = "Comment")) /\ At(q.evs[i].s) <= d.t /\ d.t < At(q.evs[i].e)
  /\ \A i \in 1..Len(d.a.act) - 1 : d.a.act[i] < d.a.act[i + 1]
  /\ SetOf(d.a.act) = (d.was \ SetOf(d.a.gone)) \cup SetOf(d.a.new)
  /\ SetOf(d.a.gone) \subseteq d.was /\ SetOf(d.a.new) \cap d.was = {}
  /\ ~d.a.dirty => SetOf(d.a.act) = d.was
=============================================================================
