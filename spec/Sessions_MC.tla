---------------------------- MODULE Sessions_MC ----------------------------
(* Every history of MaxLen session operations over two names and limits 0..2: *)
(* the limit holds, the active session exists, an operation touches no other  *)
(* session than the one it names, and a refused one touches nothing.          *)
EXTENDS Sessions, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES z, hist, last
vars == <<z, hist, last>>
Names == {"a", "b"}
Ops == [op : {"create"}, id : Names, t : {<<120>>}] \cup [op : {"switch", "remove", "read"}, id : Names]
       \cup [op : {"edit"}, id : Names, t : {<<121>>}, ok : BOOLEAN] \cup [op : {"cleanup"}, age : {"any", "marked", "none"}] \cup {[op |-> "mark"], [op |-> "arena"]}
Init == /\ \E m \in 0..2, au \in BOOLEAN : z = NoSessions(m, au) /\ hist = <<[op |-> "reset", max |-> m, auto |-> au]>>
        /\ last = [op |-> "mark", res |-> ""]
Next == /\ Len(hist) <= MaxLen
        /\ \E o \in Ops : LET d == Do(z, o) IN
             /\ (o.op = "cleanup" /\ o.age = "marked") => \E i \in 1..Len(hist) : hist[i].op = "mark"
             /\ z' = d.z /\ hist' = Append(hist, o) /\ last' = [op |-> o.op, res |-> d.res, id |-> IF "id" \in DOMAIN o THEN o.id ELSE ""]
        /\ Printing /\ Len(hist') = MaxLen + 1 => PrintT(<<"HIST", ToJson(hist')>>)
Inv == /\ Len(z.ss) <= z.max /\ Cardinality(Ids(z)) = Len(z.ss)
       /\ z.active # <<>> => Has(z, z.active[1])
Isolated == [][/\ last'.op \notin {"mark", "cleanup"} => \A n \in Names \ {last'.id} : Has(z, n) => Has(z', n) /\ z'.ss[At(z', n)] = z.ss[At(z, n)]
               /\ last'.res \notin {"", "CommandFailed"} => z' = z
               /\ ~z.auto /\ last'.op = "cleanup" => z' = z]_vars
=============================================================================
