------------------------------ MODULE Runs_MC -------------------------------
(* Short texts over a dozen and a half tags, and what holds of their looks.   *)
EXTENDS Runs, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES ts
Y(name, k) == [name |-> name, fname |-> IF k = 0 THEN "Arial" ELSE "DejaVu Sans", fs |-> 20000 + (k * 10000), fscx |-> 100000, fscy |-> 100000 - (k * 20000), fsp |-> k * 1500, fr |-> k * 10000,
               bs |-> 1 + (2 * k), bord |-> 2000, shad |-> k * 3000, b |-> k, i |-> 0, u |-> k, s |-> 0,
               col |-> <<<<255, 255, 255>>, <<255, 0, 0>>, <<10 * k, 20, 30>>, <<0, 0, 0>>>>, al |-> <<0, 0, 40 * k, 128>>]
G(n, v) == [n |-> n, as |-> n, v |-> v, x |-> "", acc |-> 1, sub |-> <<>>]
R(x) == [G("r", <<>>) EXCEPT !.x = x]
T(v, m) == [G("t", v) EXCEPT !.sub = m]
Plain == {G("fs", <<40000>>), G("fscy", <<50000>>), G("bord", <<5000>>), G("xbord", <<1000>>), G("b", <<1>>), G("1c", <<0, 128, 255>>), G("3a", <<255>>), G("alpha", <<128>>), G("shad", <<4000>>),
          G("fr", <<45000>>)}
Tags == Plain \cup {G("fs", <<>>), G("bord", <<>>), G("alpha", <<>>), R(""), R("B"), R("Nobody"), T(<<>>, <<G("fs", <<60000>>)>>), T(<<0, 500>>, <<G("bord", <<9000>>), G("alpha", <<255>>)>>),
         G("k", <<20>>), G("kf", <<30>>), G("fad", <<500, 0>>), G("clip", <<1, 2, 30, 40>>), G("p", <<0>>)}
Q(seq, t) == [op |-> "runs", w |-> 320, hh |-> 180, px |-> 640, py |-> 360, sbs |-> "yes", styles |-> <<Y("Default", 0), Y("B", 1)>>, st |-> "Default", from |-> 100, to |-> 200, t |-> t,
              text |-> <<[p |-> "text", x |-> <<97>>, ts |-> <<>>]>> \o [k \in 1..2 * Len(seq) |-> IF k % 2 = 1 THEN [p |-> "tags", x |-> <<>>, ts |-> <<seq[(k + 1) \div 2]>>] ELSE [p |-> "text", x |-> <<98, 99>>, ts |-> <<>>]]]
Init == ts = <<>>
\* a tag for a part of what a \t before it moves is left out
Apart(g) == g.n \in {"xbord", "3a"} => \A k \in 1..Len(ts) : ts[k].n = "t" => \A j \in 1..Len(ts[k].sub) : ts[k].sub[j].n = "fs"
Next == /\ Len(ts) < MaxLen /\ \E g \in {x \in Tags : Apart(x)} : ts' = Append(ts, g)
        /\ Printing => \A t \in {100, 125, 170} : PrintT(<<"HIST", ToJson(<<[op |-> "reset"], Q(ts', t)>>)>>)
State(seq, t) == FoldLeft(LAMBDA a, g : Apply(Q(seq, t), a, g), Fresh(Q(seq, t)), seq)
L(seq, t) == Look(Q(<<>>, t), State(seq, t))
Line(a) == <<a.clip, a.inv, a.org, a.kar>>
Bare(a) == [a EXCEPT !.clip = <<>>, !.kar = <<>>, !.kcol = <<>>, !.col[4] = 0, !.bcol[4] = 0, !.scol[4] = 0]
Inv == LET a == TLCEval(L(ts, 125)) IN
       \* \r leaves the style and what the line has
       /\ Bare(L(Append(ts, R("")), 125)) = Bare(L(<<>>, 125)) /\ Line(L(Append(ts, R("")), 125)) = Line(a)
       /\ Bare(L(Append(ts, R("B")), 125)) = Bare(L(<<R("B")>>, 125))
       \* the last tag of a name counts
       /\ \A g \in Plain : L(ts \o <<g, g>>, 125) = L(Append(ts, g), 125)
       /\ L(ts \o <<G("xbord", <<1000>>), G("bord", <<3000>>)>>, 125) = L(Append(ts, G("bord", <<3000>>)), 125)
       \* a \t that is over is as if its tags had been set
       /\ \A g \in Plain : g.n # "b" /\ g.n # "3a" => L(Append(ts, T(<<0, 100>>, <<g>>)), 150) = L(Append(ts, g), 150)
       /\ L(Append(ts, T(<<700, 900>>, <<G("fs", <<1000>>)>>)), 150) = L(ts, 150)
       \* syllables: each is sung through before the next begins
       /\ a.kar # <<>> => a.kar[1] <= L(ts, 130).kar[1] /\ (LET n == L(Append(ts, G("k", <<10>>)), 125) IN n.kar[1] > 0 => a.kar[1] = 1000)
=============================================================================
