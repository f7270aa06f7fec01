------------------------------ MODULE Draw_MC ------------------------------
(* Every drawing of a few tokens, and what holds of each.                     *)
EXTENDS Draw, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES ks
Words == {B("m"), B("n"), B("l"), B("b"), B("s"), B("p"), B("c"), B("x"), B("1"), B("-2.5"), B("7 .3"), B("3 4 5 6 7 8"), B("\\p0"), B("1-")}
Init == ks = <<>>
Text1 == Join(ks, B(" "))
Next == /\ Len(ks) < MaxLen
        /\ \E w \in Words : ks' = Append(ks, w)
        /\ Printing /\ Len(ks') = MaxLen => PrintT(<<"HIST", ToJson(<<[op |-> "reset"], [op |-> "draw", s |-> Join(ks', B(" "))]>>)>>)
Upper(t) == [i \in 1..Len(t) |-> IF t[i] >= 97 /\ t[i] <= 122 THEN t[i] - 32 ELSE t[i]]
Inv == LET cs == Commands(Text1)  o == Outline(cs) IN
       \* an outline starts by setting the pen down, sets it down again after closing, and never for nothing
       /\ o # <<>> => o[1][1] = "M"
       /\ \A i \in 1..Len(o) - 1 : (o[i][1] = "Z" => o[i + 1][1] = "M") /\ (o[i][1] = "M" => o[i + 1][1] # "M")
       \* case and white space mean nothing, and so does what follows the drawing
       /\ Commands(Upper(Text1)) = cs
       /\ Commands(B("  ") \o Text1 \o B(" \\p0}")) = cs
       \* each command ends where it says
       /\ cs # Bad => \A i \in 1..Len(cs) : cs[i][1] \in {"l", "b"} =>
            \E j \in 1..Len(Follow(Pen0, cs, 1).segs) : LET g == Follow(Pen0, cs, 1).segs[j] IN
               Len(g) >= 3 /\ SubSeq(g, Len(g) - 1, Len(g)) = SubSeq(cs[i], Len(cs[i]) - 1, Len(cs[i]))
=============================================================================
