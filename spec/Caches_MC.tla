----------------------------- MODULE Caches_MC ------------------------------
(* One possible cache followed step by step next to the set of possibilities: *)
(* it is always among them, and it never exceeds its limit.                   *)
EXTENDS Caches, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES f, M, max, hist
vars == <<f, M, max, hist>>
Init == /\ max \in 0..2 /\ f = NoMap /\ M = {NoMap} /\ hist = <<[op |-> "reset", maxt |-> max, maxd |-> max]>>
Next == /\ Len(hist) <= MaxLen
        /\ \/ \E k \in 0..2 : /\ f' \in Store(max, f, k, Len(hist)) /\ M' = StoreAll(max, M, k, Len(hist))
                              /\ hist' = Append(hist, [op |-> IF Printing /\ max = 1 THEN "putd" ELSE "putt", k |-> k, v |-> Len(hist)])
           \/ \E k \in 0..2 : LET a == IF k \in DOMAIN f THEN f[k] ELSE -1 IN
                f' = f /\ M' = Agree(M, k, a) /\ hist' = Append(hist, [op |-> IF Printing /\ max = 1 THEN "getd" ELSE "gett", k |-> k])
           \/ f' = NoMap /\ M' = {NoMap} /\ hist' = Append(hist, [op |-> "clear"])
        /\ max' = max
        /\ Printing /\ Len(hist') = MaxLen + 1 => PrintT(<<"HIST", ToJson(hist')>>)
Inv == /\ f \in M /\ \A g \in M : Cardinality(DOMAIN g) <= max
       /\ \A g \in M : \A k \in DOMAIN g : \E i \in 1..Len(hist) : hist[i].op = "putt" /\ hist[i].k = k /\ hist[i].v = g[k]
                          /\ \A j \in i + 1..Len(hist) : ~(hist[j].op = "putt" /\ hist[j].k = k) /\ hist[j].op # "clear"
=============================================================================
