----------------------------- MODULE ExtLife_MC -----------------------------
(* Every history of MaxLen operations: names are loaded once, every listed    *)
(* command belongs to a loaded extension that offers it, only active ones are *)
(* given new commands, and whatever depends on nothing loaded is refused.     *)
EXTENDS ExtLife, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES m, hist, last
vars == <<m, hist, last>>
L(n, d, c, i, w) == [op |-> "load", name |-> n, deps |-> d, cmds |-> c, init |-> i, down |-> w]
Ops == {L("a", <<>>, <<"x">>, TRUE, TRUE), L("b", <<"a">>, <<"x", "y">>, TRUE, TRUE), L("b", <<>>, <<"y">>, FALSE, TRUE), L("a", <<>>, <<"y">>, TRUE, FALSE)}
       \cup [op : {"init", "unload"}, name : {"a", "b"}] \cup [op : {"run"}, name : {"x", "y"}, ok : {TRUE}] \cup {[op |-> "run", name |-> "x", ok |-> FALSE], [op |-> "data", name |-> "a", v |-> "w"], [op |-> "config", name |-> "k", v |-> "w"]}
Init == m = NoExts /\ hist = <<[op |-> "reset"]>> /\ last = ""
Next == /\ Len(hist) <= MaxLen
        /\ \E o \in Ops : LET a == Do(m, o) IN m' = a.m /\ hist' = Append(hist, o) /\ last' = o.op \o a.res
        /\ Printing /\ Len(hist') = MaxLen + 1 => PrintT(<<"HIST", ToJson(hist')>>)
Inv == /\ Cardinality(Names(m)) = Len(m.es)
       /\ \A i \in 1..Len(m.cmds) : m.cmds[i][2] \in Names(m) /\ m.cmds[i][1] \in SetOf(m.es[At(m, m.cmds[i][2])].cmds)
       /\ \A i, j \in 1..Len(m.cmds) : i # j => m.cmds[i][1] # m.cmds[j][1]
       /\ \A i \in 1..Len(m.es) : m.es[i].state \in {"Uninitialized", "Active", "Error", "ShuttingDown"}
\* commands appear only when an initialisation succeeds and disappear only when an extension is unloaded
Steady == [][/\ last' # "init" => SetOf(m'.cmds) \subseteq SetOf(m.cmds)
             /\ last' \notin {"init", "unload"} => m'.cmds = m.cmds
             /\ last' # "load" => Names(m') \subseteq Names(m)]_vars
=============================================================================
