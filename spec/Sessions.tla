------------------------------ MODULE Sessions ------------------------------
(* The editor's session manager: named documents of which one is active.      *)
(* old marks a session not accessed since the last "mark".                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoSessions(max, auto) == [max |-> max, auto |-> auto, ss |-> <<>>, active |-> <<>>, resets |-> 0]
Ids(z) == {z.ss[i].id : i \in 1..Len(z.ss)}
At(z, id) == CHOOSE i \in 1..Len(z.ss) : z.ss[i].id = id
Has(z, id) == id \in Ids(z)
Ans(z, res, val, gone) == [z |-> z, res |-> res, val |-> val, gone |-> gone]
Fine(z) == Ans(z, "", <<>>, <<>>)
Missing(z) == Ans(z, "DocumentNotFound", <<>>, <<>>)

Put(z, id, t) ==
  LET s == [id |-> id, t |-> t, ops |-> 0, old |-> FALSE] IN
  [z EXCEPT !.ss = IF Has(z, id) THEN [@ EXCEPT ![At(z, id)] = s] ELSE Append(@, s),
            !.active = IF @ = <<>> THEN <<id>> ELSE @]
Create(z, id, t) == IF Len(z.ss) >= z.max THEN Ans(z, "SessionLimitExceeded", <<>>, <<>>) ELSE Fine(Put(z, id, t))
Switch(z, id) == IF ~Has(z, id) THEN Missing(z) ELSE Fine([z EXCEPT !.active = <<id>>, !.ss[At(z, id)].old = FALSE])
Drop1(z, id) == [z EXCEPT !.ss = SelectSeq(@, LAMBDA s : s.id # id), !.active = IF @ = <<id>> THEN <<>> ELSE @]
Remove(z, id) == IF ~Has(z, id) THEN Missing(z)
                 ELSE LET s == z.ss[At(z, id)] IN Ans(Drop1(z, id), "", <<>>, <<id, s.t, s.ops>>)
Read(z, id) == IF ~Has(z, id) THEN Missing(z) ELSE Ans(z, "", z.ss[At(z, id)].t, <<>>)
\* An edit that fails half way has still edited, but is no completed operation.
Edit(z, id, t, ok) ==
  IF ~Has(z, id) THEN Missing(z)
  ELSE LET i == At(z, id)  s == [z.ss[i] EXCEPT !.t = @ \o t, !.ops = IF ok THEN @ + 1 ELSE @]
           y == [z EXCEPT !.ss[i] = s] IN
       IF ok THEN Ans(y, "", s.t, <<>>) ELSE Ans(y, "CommandFailed", <<>>, <<>>)
Mark(z) == [z EXCEPT !.ss = [i \in 1..Len(@) |-> [@[i] EXCEPT !.old = TRUE]]]
Stale(z, age) == IF ~z.auto THEN {} ELSE {z.ss[i].id : i \in {k \in 1..Len(z.ss) : CASE age = "any" -> TRUE [] age = "marked" -> z.ss[k].old [] OTHER -> FALSE}}
Cleanup(z, age) ==
  LET g == Stale(z, age) IN
  Ans([z EXCEPT !.ss = SelectSeq(@, LAMBDA s : s.id \notin g), !.active = IF @ # <<>> /\ @[1] \in g THEN <<>> ELSE @],
      "", <<Cardinality(g)>>, <<>>)

Do(z, o) ==
  CASE o.op = "create" -> Create(z, o.id, o.t)
    [] o.op = "switch" -> Switch(z, o.id)
    [] o.op = "remove" -> Remove(z, o.id)
    [] o.op = "read" -> Read(z, o.id)
    [] o.op = "edit" -> Edit(z, o.id, o.t, o.ok)
    [] o.op = "mark" -> Fine(Mark(z))
    [] o.op = "cleanup" -> Cleanup(z, o.age)
    [] o.op = "arena" -> Fine([z EXCEPT !.resets = @ + 1])
=============================================================================
