------------------------------ MODULE Atlas_MC ------------------------------
(* Row by row packing is one way to satisfy the specification.                *)
EXTENDS Atlas, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES q, row, hist
vars == <<q, row, hist>>
Sizes == {<<1, 1>>, <<2, 3>>, <<3, 1>>, <<4, 2>>, <<5, 1>>, <<1, 4>>, <<0, 2>>, <<-1, 1>>, <<1, -1>>}
Init == q = Fresh(4, 4) /\ row = [x |-> 0, y |-> 0, h |-> 0] /\ hist = <<[op |-> "reset", w |-> 4, hh |-> 4]>>
\* the packing: along a row while there is room, then a new row below the tallest
Wrap(z) == IF row.x + z[1] > q.w THEN [x |-> 0, y |-> row.y + row.h, h |-> 0] ELSE row
MaxI(a, b) == IF a > b THEN a ELSE b
Next == /\ Len(hist) <= MaxLen
        /\ \/ \E z \in Sizes : /\ hist' = Append(hist, [op |-> "alloc", w |-> z[1], hh |-> z[2]])
                               /\ LET p == Wrap(z) IN
                                  IF Fits(q, z[1], z[2]) /\ p.y + z[2] <= q.h
                                  THEN q' = Give(q, <<p.x, p.y, z[1], z[2]>>) /\ row' = [x |-> p.x + z[1], y |-> p.y, h |-> MaxI(p.h, z[2])]
                                  ELSE UNCHANGED <<q, row>>
           \/ \E k \in 1..Len(q.got) : /\ q' = Paint(q, q.got[k], Len(hist), q.got[k][4]) /\ UNCHANGED row
                                        /\ hist' = Append(hist, [op |-> "write", k |-> k - 1, v |-> Len(hist), short |-> 0])
           \/ q' = Fresh(4, 4) /\ row' = [x |-> 0, y |-> 0, h |-> 0] /\ hist' = Append(hist, [op |-> "clear"])
        /\ Printing /\ Len(hist') = MaxLen + 1 => PrintT(<<"HIST", ToJson(hist')>>)
Inv == /\ \A i \in 1..Len(q.got) : Inside(q, q.got[i])
       /\ \A i, j \in 1..Len(q.got) : i # j => ~Common(q.got[i], q.got[j])
       /\ \A p \in 1..q.w * q.h : q.px[p] # 0 => \E i \in 1..Len(q.got) : Common(q.got[i], <<(p - 1) % q.w, (p - 1) \div q.w, 1, 1>>)
=============================================================================
