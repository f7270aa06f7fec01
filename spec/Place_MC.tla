------------------------------ MODULE Place_MC ------------------------------
(* Every alignment with margins, positions and movements, over short texts.   *)
EXTENDS Place, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES ps
Y(name, k) == [name |-> name, fname |-> "DejaVu Sans", fs |-> 20000 + (k * 10000), fscx |-> 100000 + (50000 * k), fscy |-> 100000, fsp |-> k * 2000, fr |-> 0,
               bs |-> 1, bord |-> 0, shad |-> 0, b |-> 0, i |-> 0, u |-> 0, s |-> 0, num |-> 2 + (5 * k), mg |-> <<10, 30, 20 + k>>,
               col |-> <<<<255, 255, 255>>, <<255, 0, 0>>, <<10, 20, 30>>, <<0, 0, 0>>>>, al |-> <<0, 0, 0, 0>>]
G(n, v) == [n |-> n, as |-> n, v |-> v, x |-> "", acc |-> 1, sub |-> <<>>]
B(g) == [p |-> "tags", x |-> <<>>, ts |-> <<g>>]
H == [p |-> "text", x |-> <<72, 72>>, ts |-> <<>>]
N == [p |-> "break", x |-> <<>>, ts |-> <<>>]
Tags == {G("an", <<k>>) : k \in 0..9} \cup {G("a", <<k>>) : k \in {1, 2, 3, 5, 6, 7, 9, 10, 11, 12}} \cup
        {G("pos", <<100, 50>>), G("pos", <<200, 120>>), G("move", <<50, 40, 150, 90>>), G("move", <<50, 40, 150, 90, 250, 750>>), G("move", <<150, 90, 50, 40, 800, 200>>),
         [G("r", <<>>) EXCEPT !.x = "B"], G("fs", <<40000>>), G("fscx", <<200000>>), G("fscy", <<50000>>), G("fsp", <<4000>>)}
Pieces2 == {B(g) : g \in Tags} \cup {H, N}
Q(seq, t) == [op |-> "place", w |-> 640, hh |-> 300, px |-> 320, py |-> 200, sbs |-> "yes", styles |-> <<Y("Default", 0), Y("B", 1)>>, st |-> "Default", from |-> 100, to |-> 200, t |-> t,
              emg |-> <<0, 0, 0>>, pad |-> 4, ink |-> FALSE, shape |-> [lvl |-> 0, b |-> <<0, 0, 0, 0>>], text |-> <<H>> \o seq \o <<H>>]
Init == ps = <<>>
Next == /\ Len(ps) < MaxLen /\ \E p \in Pieces2 : ps' = Append(ps, p)
        /\ Printing => PrintT(<<"HIST", ToJson(<<[op |-> "reset"], Q(ps', 130), Q(ps', 199)>>)>>)
At(seq, t) == <<Alignment(Q(seq, t)), Positioned(Q(seq, t)), Anchor(Q(seq, t))>>
Inv == LET q == TLCEval(Q(ps, 130))  a == Alignment(q)  ls == Lines(q) IN
       /\ a \in 1..9
       \* what holds for the event is settled by the first tag, and not by where it stands
       /\ \A g \in Tags : (g.n \in {"an", "a"} /\ (\E k \in 1..Len(ps) : ps[k].p = "tags" /\ ps[k].ts[1].n \in {"an", "a"} /\ Aligns(ps[k].ts[1]))) => At(Append(ps, B(g)), 130)[1] = a
       /\ Positioned(q) => \A t \in {100, 130, 199} : \A g \in {G("pos", <<1, 1>>), G("move", <<1, 2, 3, 4>>)} : At(Append(ps, B(g)), t) = At(ps, t)
       /\ At(Reverse(ps), 130)[2] = At(ps, 130)[2]
       \* without a position the event keeps to its margins, and the three columns and rows divide them
       /\ ~Positioned(q) => Anchor(q)[1] \in {20000, 300000, 580000} /\ Anchor(q)[2] \in {30000, 150000, 270000}
       \* a movement stays between its ends
       /\ (Positioned(q) /\ Placing(q)[1].n = "move") => \A t \in {100, 125, 150, 199} : At(ps, t)[3][1] \in 100000..300000 /\ At(ps, t)[3][2] \in 60000..135000
       \* the edges of what is placed lie at the anchor, on either side of it as the alignment says
       /\ \A wide \in {0, 5000, 64000} : Left(q, wide) <= Anchor(q)[1] /\ Left(q, wide) + wide >= Anchor(q)[1]
       /\ \A high \in {0, 30000} : Top(q, high) <= Anchor(q)[2] /\ Top(q, high) + high >= Anchor(q)[2]
       \* every byte of text is on one line, and each break begins another
       /\ Len(ls) = 1 + Cardinality({k \in 1..Len(ps) : ps[k].p = "break"})
       /\ Sum([k \in 1..Len(ls) |-> Bytes(ls[k])]) = 2 * (2 + Cardinality({k \in 1..Len(ps) : ps[k].p = "text"}))
=============================================================================
