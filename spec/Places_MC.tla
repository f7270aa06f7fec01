------------------------------ MODULE Places_MC -------------------------------
(* Every text of up to MaxLen pieces: offsets between characters and places   *)
(* by line and column are the same places, and edits keep to their lines.     *)
EXTENDS Places, IOUtils, Json
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES t, n
Parts == << <<97>>, <<195, 169>>, <<32>>, <<10>>, <<13>>, <<13, 10>>, <<12>>, <<194, 133>>, <<226, 128, 168>>, <<226, 130, 172>> >>
At(k, p, m) == [op |-> "at", by |-> "offset", at |-> p, kind |-> k, n |-> m, x |-> <<120>>]
Sel(k, a, b, m) == [op |-> "sel", kind |-> k, from |-> a, to |-> b, n |-> m, x |-> <<123>>, y |-> <<125>>]
RECURSIVE Undone(_)
Undone(os) == IF os = <<>> THEN <<>> ELSE <<Head(os), [op |-> "undo"]>> \o Undone(Tail(os))
Hist(x) == <<[op |-> "reset", t |-> x]>> \o [p \in 1..(Len(x) + 2) |-> [op |-> "where", at |-> p - 1]]
           \o [i \in 1..(5 * (Len(Rows(x)) + 2)) |-> [op |-> "place", by |-> "column", line |-> (i - 1) \div 5, col |-> (i - 1) % 5]]
           \o [i \in 1..(Len(Rows(x)) + 2) |-> [op |-> "place", by |-> "end", line |-> i - 1, col |-> 0]]
           \o Undone([p \in 1..(Len(x) + 1) |-> At("line", p - 1, 0)]) \o Undone([p \in 1..(Len(x) + 1) |-> At("delete", p - 1, 1)]) \o Undone([p \in 1..(Len(x) + 1) |-> At("back", p - 1, 1)])
           \o Undone(<<Sel("indent", 0, Len(x), 2), Sel("unindent", 0, Len(x), 1), Sel("wrap", 0, Len(x), 0)>>)
Init == t = <<>> /\ n = 0
Next == /\ n < MaxLen /\ \E i \in 1..Len(Parts) : t' = t \o Parts[i]
        /\ n' = n + 1
        /\ Printing => PrintT(<<"HIST", ToJson(Hist(t'))>>)
Edges == {p \in 0..Len(t) : Edge(t, p)}
R == Rows(t)
RECURSIVE All(_)
All(i) == IF i > Len(R) THEN <<>> ELSE SubSeq(t, R[i].s + 1, R[i].n) \o All(i + 1)
InvRows == All(1) = t /\ \A i \in 1..Len(R) : R[i].s <= R[i].e /\ R[i].e <= R[i].n /\ Edge(t, R[i].s) /\ Edge(t, R[i].e) /\ (i < Len(R) => R[i].n = R[i + 1].s /\ R[i].e < R[i].n)
InvNamed == \A p \in Edges : LET w == LineCol(t, p) IN PlaceAt(t, w[1], w[2]) = p
InvPlaced == \A i \in 0..(Len(R) + 1), c \in 0..(Len(t) + 2) : LET p == PlaceAt(t, i, c) IN p >= 0 => p \in Edges /\ LineCol(t, p) = <<i, c>>
InvMoved == \A p \in Edges : \A m \in 0..3 : LET q == After(t, p, m) IN q >= 0 => q \in Edges /\ Before(t, q, m) = p
InvLine == \A p \in Edges : ToLineEnd(t, p, <<>>) = t \/ Len(Rows(ToLineEnd(t, p, <<>>))) \in {Len(R), Len(R) - 1}
InvShift == \A a, b \in Edges : a <= b => /\ Shifted(Shifted(t, a, b, 2), a, b, 0) = Shifted(t, a, b, 2) /\ Shifted(t, a, b, 0) = t
                                          /\ LET u == Shifted(t, a, b, 3) IN Len(u) = Len(t) + 3 * (RowAt(R, b) - RowAt(R, a) + 1) /\ Shifted(u, a, Len(u) - (Len(t) - b), 0 - 3) = t
===============================================================================
