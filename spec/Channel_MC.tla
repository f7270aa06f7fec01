----------------------------- MODULE Channel_MC -----------------------------
(* Every history of MaxLen operations over a few handlers and events: those   *)
(* told of an event are exactly the matching handlers, in order of priority   *)
(* and age, up to the first that fails; identifiers are never used twice.     *)
EXTENDS Channel, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES c, hist, d
vars == <<c, hist, d>>
H(p, i, x, m, u, f) == [op |-> "register", pri |-> p, inc |-> i, exc |-> x, mods |-> m, cur |-> u, fail |-> f]
Regs == {H(0, <<>>, <<>>, "any", "any", <<>>), H(5, <<"TextInserted">>, <<>>, "any", "any", <<>>), H(5, <<>>, <<"CursorMoved">>, "any", "any", <<"TextInserted">>),
         H(-1, <<"TextInserted", "CursorMoved">>, <<"TextInserted">>, "any", "any", <<>>), H(0, <<>>, <<>>, "no", "any", <<>>), H(7, <<>>, <<>>, "any", "yes", <<"CursorMoved">>)}
Evs == {"TextInserted", "CursorMoved", "*TextInserted"}
N == 10 * Len(hist)
Ops == Regs \cup [op : {"unregister"}, id : 0..2] \cup [op : {"dispatch", "post"}, ev : Evs, n : {N}] \cup {[op |-> "clear"], [op |-> "setup"], [op |-> "drain"], [op |-> "hangup"],
         [op |-> "batch", evs |-> <<"CursorMoved", "TextInserted", "CursorMoved">>, n |-> N]}
Init == /\ \E m \in {1, 3} : c = NoChannel(m) /\ hist = <<[op |-> "reset", max |-> m, batching |-> (m = 1)]>>
        /\ d = [op |-> "clear", log |-> <<>>]
Next == /\ Len(hist) <= MaxLen
        /\ \E o \in Ops : LET a == Do(c, o) IN
             /\ c' = a.c /\ hist' = Append(hist, o) /\ d' = [op |-> o.op, log |-> a.log, ev |-> IF o.op = "dispatch" THEN o.ev ELSE "", res |-> a.res]
        /\ Printing /\ Len(hist') = MaxLen + 1 => PrintT(<<"HIST", ToJson(hist')>>)
Who(i) == c.hs[i].who
Before(x, y) == x.pri > y.pri \/ (x.pri = y.pri /\ x.who < y.who)
Inv == /\ Len(c.hs) <= c.max
       /\ \A i, j \in 1..Len(c.hs) : i < j => Before(c.hs[i], c.hs[j]) /\ c.hs[i].id # c.hs[j].id
       /\ \A i \in 1..Len(c.hs) : c.hs[i].id < c.nextId
       /\ d.op = "dispatch" =>
            LET m == SelectSeq(c.hs, LAMBDA h : Matches(h, d.ev))
                told == [i \in 1..Len(d.log) |-> d.log[i][1]] IN
            /\ Len(told) <= Len(m) /\ \A i \in 1..Len(told) : told[i] = m[i].who
            /\ (d.res = "") = (Len(told) = Len(m) /\ \A i \in 1..Len(m) : d.ev \notin SetOf(m[i].fail))
            /\ d.res # "" => d.ev \in SetOf(m[Len(told)].fail)
=============================================================================
