------------------------------ MODULE Tokens_MC ------------------------------
(* Every text of up to MaxLen pieces of an alphabet of telling ones.          *)
EXTENDS Tokens, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES t, n
Pieces == << <<91>>, <<93>>, <<58>>, <<44>>, <<123>>, <<125>>, <<10>>, <<13>>, <<59>>, <<33>>, <<32>>, <<97>>, B("1."), B("&HFF"), <<195, 169>>,
             <<226, 128, 168>> >>
Init == t = <<>> /\ n = 0
Next == /\ n < MaxLen
        /\ \E i \in 1..Len(Pieces) : t' = t \o Pieces[i]
        /\ n' = n + 1
        /\ IF Printing /\ n' = MaxLen THEN PrintT(<<"HIST", ToJson(<<[op |-> "reset", t |-> t']>>)>>) ELSE TRUE

\* Line ends before byte i (0-based offset o), counting \r\n once, and the column by definition.
EndsBefore(o) == {k \in 1..o : t[k] = 13 \/ (t[k] = 10 /\ (k = 1 \/ t[k - 1] # 13))}
RECURSIVE FindLastEnd(_)
FindLastEnd(o) == IF o = 0 \/ IsEnd(t[o]) THEN o ELSE FindLastEnd(o - 1)
Cardinality2(S) == Len(SelectSeq([k \in 1..Len(t) |-> k], LAMBDA k : k \in S))
R == Tokens(t)
\* Tokens follow each other without overlap and leave out nothing but white space.
InvCover == \A k \in 1..Len(R.toks) + 1 :
   LET from == IF k = 1 THEN 0 ELSE R.toks[k - 1].e
       to   == IF k > Len(R.toks) THEN Len(t) ELSE R.toks[k].s
   IN from <= to /\ IsBlank(SubSeq(t, from + 1, to)) /\ (k <= Len(R.toks) => R.toks[k].s < R.toks[k].e)
InvPlace == \A k \in 1..Len(R.toks) : LET x == R.toks[k] IN
   /\ x.line = 1 + Cardinality2(EndsBefore(x.s))
   /\ x.col = 1 + Len(SelectSeq(SubSeq(t, FindLastEnd(x.s) + 1, x.s), LAMBDA c : ~IsCont(c)))
InvNewline == \A k \in 1..Len(R.toks) : LET x == R.toks[k] IN
   (x.ty = "Newline") = (IsEnd(t[x.s + 1]) /\ x.e - x.s <= 2 /\ (x.e - x.s = 2 => t[x.s + 1] = 13 /\ t[x.s + 2] = 10))
=============================================================================
