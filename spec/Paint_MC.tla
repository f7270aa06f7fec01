------------------------------ MODULE Paint_MC ------------------------------
(* Small scenes, and what holds of each.                                      *)
EXTENDS Paint, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES evs
Rect(x, y, w, h) == <<<<x, y>>, <<x + w, y>>, <<x + w, y + h>>, <<x, y + h>>>>
Hole(x, y, w, h) == <<<<x, y>>, <<x, y + h>>, <<x + w, y + h>>, <<x + w, y>>>>
E0 == [ly |-> 0, s |-> 0, e |-> 100, st |-> "Default", an |-> 7, kind |-> "pos", p |-> <<1, 1>>, col |-> <<255, 0, 9>>, al |-> <<>>, aln |-> <<>>,
       clip |-> <<>>, inv |-> FALSE, lvl |-> 1, polys |-> <<Rect(0, 0, 4, 2)>>, fad |-> <<>>, tags |-> <<"p", "an", "at", "c", "al", "clip", "fad">>, brk |-> 9, end |-> FALSE]
Scenes == {E0, [E0 EXCEPT !.col = <<>>, !.kind = "none", !.an = 0], [E0 EXCEPT !.polys = <<Rect(0, 0, 5, 4), Hole(1, 1, 3, 2)>>, !.al = <<128>>, !.aln = <<"1a">>],
           [E0 EXCEPT !.ly = 1, !.col = <<0, 200, 0>>, !.clip = <<2, 1, 4, 3>>], [E0 EXCEPT !.ly = 1, !.col = <<0, 200, 0>>, !.clip = <<2, 1, 4, 3>>, !.inv = TRUE],
           [E0 EXCEPT !.s = 10, !.col = <<7, 7, 77>>, !.kind = "move", !.p = <<0, 0, 4, 2, 100, 500>>], [E0 EXCEPT !.lvl = 2, !.col = <<1, 2, 3>>, !.fad = <<400, 400>>],
           [E0 EXCEPT !.st = "B", !.col = <<>>, !.an = 0, !.polys = <<Rect(0, 0, 2, 2), Rect(1, 0, 2, 2)>>, !.p = <<4, 4>>],
           [E0 EXCEPT !.e = 20], [E0 EXCEPT !.polys = <<>>]}
Q(es) == [op |-> "paint", w |-> 6, hh |-> 4, px |-> 6, py |-> 4, styles |-> <<[name |-> "Default", rgb |-> <<10, 20, 30>>, alpha |-> 0, an |-> 5], [name |-> "B", rgb |-> <<0, 255, 0>>, alpha |-> 64, an |-> 3]>>, evs |-> es, t |-> 30]
Init == evs = <<>>
Next == /\ Len(evs) < MaxLen /\ \E e \in Scenes : evs' = Append(evs, e)
        /\ Printing => PrintT(<<"HIST", ToJson(<<[op |-> "reset"], Q(evs')>>)>>)
Sure(px) == {k \in 1..24 : px[k] # Unknown}
Inv == LET q == Q(evs)  px == TLCEval(Frame(q, 30)) IN
       \* no more colour than opacity
       /\ \A k \in Sure(px) : \A c \in 1..3 : px[k][c] <= px[k][4] + 2 * 256
       \* a clip and its inverse are the whole: laid one over the other they leave what the unclipped one does
       /\ \A e \in Scenes : e.clip # <<>> =>
            LET a == Over(q, Over(q, px, [e EXCEPT !.inv = TRUE], 30), [e EXCEPT !.inv = FALSE], 30)  c == Over(q, px, [e EXCEPT !.clip = <<>>], 30) IN
            \A k \in Sure(a) \cap Sure(c) : a[k] = c[k]
       \* what is laid first does not show through what is opaque
       /\ LET e == [E0 EXCEPT !.polys = <<Rect(0, 0, 6, 4)>>, !.p = <<0, 0>>, !.ly = 9] IN
          \A k \in 1..24 : Frame([q EXCEPT !.evs = <<e>> \o evs], 30)[k] = Frame([q EXCEPT !.evs = <<e>>], 30)[k]
       \* events that are over leave nothing
       /\ \A k \in 1..24 : Frame(q, 100)[k] = Blank
=============================================================================
