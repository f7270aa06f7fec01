----------------------------- MODULE Regions_MC -----------------------------
EXTENDS Regions, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES list, marked, hist
vars == <<list, marked, hist>>
R(x, y, w, h) == [op |-> "add", x |-> x, y |-> y, w |-> w, hh |-> h]
Adds == {R(x, y, w, h) : x \in {0, 2, 5}, y \in {0, 3}, w \in {1, 4}, h \in {1, 4}}
Box(o) == [x |-> o.x, y |-> o.y, w |-> o.w, hh |-> o.hh]
Init == list = <<>> /\ marked = <<>> /\ hist = <<[op |-> "reset"]>>
Next == /\ Len(hist) <= MaxLen
        /\ \/ \E o \in Adds : list' = Grow(list, Box(o)) /\ marked' = Append(marked, Box(o)) /\ hist' = Append(hist, o)
           \/ list' = <<>> /\ marked' = <<>> /\ hist' = Append(hist, [op |-> "clear"])
        /\ Printing /\ Len(hist') = MaxLen + 1 => PrintT(<<"HIST", ToJson(hist')>>)
Inv == /\ Sound(list, marked)
       /\ \A i \in 1..Len(marked) : \A x \in 0..9, y \in 0..9 : Point(marked[i], x, y) => \E j \in 1..Len(list) : Point(list[j], x, y)
=============================================================================
