-------------------------------- MODULE Runs --------------------------------
(* What the text of an event is drawn with: the override tags in force over   *)
(* each byte of it, on top of the style, at a time. Numbers are thousandths   *)
(* of script units; times are centiseconds, those of tags milliseconds.       *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
F == INSTANCE Fade

\* --- arithmetic that stays small
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lowest(f) == IF f[1] = 0 THEN <<0, 1>> ELSE LET g == Gcd(f[1], f[2]) IN <<f[1] \div g, f[2] \div g>>
Part(v, f) == ((v \div f[2]) * f[1]) + (((v % f[2]) * f[1]) \div f[2])
Toward(from, to, f) == from + Part(to - from, f)
Percent(v, pc) == LET h == pc \div 10 IN ((v \div 10000) * h) + (((v % 10000) * h) \div 10000)   \* of v, to a hundredth of a percent
Units(q, v) == Part(v, <<q.w, IF q.px = 0 THEN q.w ELSE q.px>>)

\* --- styles
Named(q, name) == {i \in 1..Len(q.styles) : q.styles[i].name = name}
Latest(S) == CHOOSE x \in S : \A y \in S : y <= x
EventStyle(q) == IF Named(q, q.st) # {} THEN q.styles[Latest(Named(q, q.st))]
                 ELSE IF Named(q, "Default") # {} THEN q.styles[Latest(Named(q, "Default"))] ELSE q.styles[1]

\* --- what is in force: what the line has, and what has been set over the style since the last \r
Axes == {"xbord", "ybord", "xshad", "yshad"}
Numbers == {"fs", "fscx", "fscy", "fsp", "fr", "frx", "fry", "fax", "fay", "bord", "shad", "blur", "be"} \cup Axes
Switches == {"b", "i", "u", "s"}
Colours == <<"1c", "2c", "3c", "4c">>
Alphas == <<"1a", "2a", "3a", "4a">>
None == [k \in Numbers \cup Switches \cup ToSet(Colours) \cup ToSet(Alphas) |-> <<>>]
Fresh(q) == [set |-> None, font |-> "", style |-> EventStyle(q), clip |-> <<>>, inv |-> FALSE, fad |-> <<>>, org |-> <<>>, kar |-> <<>>, draw |-> FALSE]
\* both axes of a border or shadow
Group(k) == IF k = "bord" THEN {"xbord", "ybord"} ELSE IF k = "shad" THEN {"xshad", "yshad"} ELSE {}
Whole(k) == IF k \in {"xbord", "ybord"} THEN "bord" ELSE "shad"
FromStyle(y, k) == CASE k = "fs" -> y.fs [] k = "fscx" -> y.fscx [] k = "fscy" -> y.fscy [] k = "fsp" -> y.fsp [] k = "fr" -> y.fr
                     [] k \in {"bord", "xbord", "ybord"} -> y.bord [] k \in {"shad", "xshad", "yshad"} -> y.shad [] OTHER -> 0
Number(z, k) == IF z.set[k] # <<>> THEN z.set[k][1]
                ELSE IF k \in Axes /\ z.set[Whole(k)] # <<>> THEN z.set[Whole(k)][1] ELSE FromStyle(z.style, k)
Switch(z, k) == IF z.set[k] # <<>> THEN (IF z.set[k][1] = 0 THEN 0 ELSE 1)
                ELSE CASE k = "b" -> z.style.b [] k = "i" -> z.style.i [] k = "u" -> z.style.u [] k = "s" -> z.style.s
Rgb(z, n) == IF z.set[Colours[n]] # <<>> THEN z.set[Colours[n]] ELSE z.style.col[n]
Alpha(z, n) == IF z.set[Alphas[n]] # <<>> THEN z.set[Alphas[n]][1] ELSE z.style.al[n]      \* 0 is opaque
Font(z) == IF z.font # "" THEN z.font ELSE z.style.fname

\* --- tags
Put(z, k, v) == [z EXCEPT !.set = [j \in DOMAIN None |-> IF j = k THEN v ELSE IF j \in Group(k) THEN <<>> ELSE z.set[j]]]
\* how far a \t has gone: \t(tags) runs over the event, \t(t1,t2,tags) from t1 to t2
Gone(q, g) ==
  LET from == IF Len(g.v) = 2 THEN g.v[1] ELSE 0
      to == IF Len(g.v) = 2 /\ g.v[2] > 0 THEN g.v[2] ELSE (q.to - q.from) * 10
      now == (q.t - q.from) * 10
      f == IF now <= from THEN <<0, 1>> ELSE IF to <= from \/ now >= to THEN <<1, 1>> ELSE Lowest(<<now - from, to - from>>) IN
  IF g.acc = 2 THEN <<f[1] * f[1], f[2] * f[2]>> ELSE f
Move(z, g, f) ==
  IF f[1] = 0 THEN z
  ELSE IF g.n \in Numbers
  THEN LET w == [z EXCEPT !.set[g.n] = <<Toward(Number(z, g.n), g.v[1], f)>>] IN
       [w EXCEPT !.set = [j \in DOMAIN None |-> IF j \in Group(g.n) /\ z.set[j] # <<>> THEN <<Toward(z.set[j][1], g.v[1], f)>> ELSE w.set[j]]]
  ELSE IF g.n \in ToSet(Colours)
  THEN LET n == CHOOSE i \in 1..4 : Colours[i] = g.n IN [z EXCEPT !.set[g.n] = [c \in 1..3 |-> Toward(Rgb(z, n)[c], g.v[c], f)]]
  ELSE IF g.n = "alpha" THEN [z EXCEPT !.set = [j \in DOMAIN None |-> IF \E i \in 1..4 : Alphas[i] = j
                                                  THEN <<Toward(Alpha(z, CHOOSE i \in 1..4 : Alphas[i] = j), g.v[1], f)>> ELSE z.set[j]]]
  ELSE z
Far == 1000000000
Later(a, d) == IF a >= Far THEN a ELSE a + d            \* both up to Far, which stands for what is beyond any event
Karaoke == <<"k", "kf", "ko", "K">>
Apply(q, z, g) ==
  CASE g.n \in Numbers \cup Switches \cup ToSet(Colours) \cup ToSet(Alphas) -> Put(z, g.n, g.v)
    [] g.n = "alpha" -> [z EXCEPT !.set = [j \in DOMAIN None |-> IF j \in ToSet(Alphas) THEN g.v ELSE z.set[j]]]
    [] g.n = "fn" -> [z EXCEPT !.font = g.x]
    [] g.n = "r" -> [z EXCEPT !.set = None, !.font = "",
                       !.style = IF Named(q, g.x) # {} THEN q.styles[Latest(Named(q, g.x))] ELSE EventStyle(q)]
    [] g.n = "t" -> FoldLeft(LAMBDA a, m : Move(a, m, Gone(q, g)), z, g.sub)
    [] g.n \in {"clip", "iclip"} -> [z EXCEPT !.clip = g.v, !.inv = g.n = "iclip"]
    [] g.n = "org" -> [z EXCEPT !.org = g.v]
    [] g.n \in {"fad", "fade"} -> [z EXCEPT !.fad = g.v]
    [] g.n = "p" -> [z EXCEPT !.draw = g.v # <<>> /\ g.v[1] > 0]
    [] g.n \in ToSet(Karaoke) -> [z EXCEPT !.kar = <<IF z.kar = <<>> THEN 0 ELSE Later(z.kar[1], z.kar[2]), g.v[1], (CHOOSE i \in 1..4 : Karaoke[i] = g.n) - 1>>]
    [] OTHER -> z                               \* comments, tags there are not, and what places the line

\* --- the text: each piece of it with what is in force over it
RECURSIVE Walk(_, _, _)
Walk(q, z, ps) ==
  IF ps = <<>> THEN <<>>
  ELSE LET p == Head(ps) IN
       CASE p.p = "tags" -> Walk(q, FoldLeft(LAMBDA a, g : Apply(q, a, g), z, p.ts), Tail(ps))
         [] p.p = "break" -> Walk(q, z, Tail(ps))
         [] p.p = "hard" -> <<[x |-> <<194, 160>>, z |-> z]>> \o Walk(q, z, Tail(ps))
         [] OTHER -> (IF p.x = <<>> THEN <<>> ELSE <<[x |-> p.x, z |-> z]>>) \o Walk(q, z, Tail(ps))
Pieces(q) == TLCEval(Walk(q, Fresh(q), q.text))
Words(q) == SelectSeq(Pieces(q), LAMBDA p : ~p.z.draw)
Shapes(q) == SelectSeq(Pieces(q), LAMBDA p : p.z.draw)

\* --- how a run is drawn
Seen(q, z, n) == LET f == F!Left(q.from, q.to, q.t, z.fad) IN ((255 - Alpha(z, n)) * f[1]) \div f[2]
Rgba(q, z, n) == Append(Rgb(z, n), Seen(q, z, n))
Edge(q, v) == IF q.sbs = "no" THEN v ELSE Units(q, v)
Sung(q, z) == LET at == q.from + z.kar[1] IN
  IF q.t < at THEN 0 ELSE IF q.t - at >= z.kar[2] THEN 1000 ELSE ((q.t - at) * 1000) \div z.kar[2]
Look(q, z) ==
  [font |-> Font(z), size |-> Percent(Units(q, Number(z, "fs")), Number(z, "fscy")), fsp |-> Units(q, Number(z, "fsp")),
   on |-> <<Switch(z, "b"), Switch(z, "i"), Switch(z, "u"), Switch(z, "s")>>,
   col |-> Rgba(q, z, 1), bord |-> <<Edge(q, Number(z, "xbord")), Edge(q, Number(z, "ybord"))>>, bcol |-> Rgba(q, z, 3), box |-> z.style.bs = 3,
   shad |-> <<Edge(q, Number(z, "xshad")), Edge(q, Number(z, "yshad"))>>, scol |-> Rgba(q, z, 4),
   blur |-> Units(q, Number(z, "blur")), be |-> Number(z, "be"),
   rot |-> <<Number(z, "frx"), Number(z, "fry"), Number(z, "fr")>>, org |-> [k \in 1..Len(z.org) |-> Units(q, z.org[k] * 1000)],
   shear |-> <<Number(z, "fax"), Number(z, "fay")>>, scale |-> <<Number(z, "fscx"), Number(z, "fscy")>>,
   clip |-> [k \in 1..Len(z.clip) |-> Units(q, z.clip[k] * 1000)], inv |-> z.inv,
   kar |-> IF z.kar = <<>> THEN <<>> ELSE <<Sung(q, z), z.kar[3]>>, kcol |-> IF z.kar = <<>> THEN <<>> ELSE Rgba(q, z, 2)]
\* a cursor over the bytes of runs: where the k-th byte stands
RECURSIVE Spans(_, _)
Spans(lens, at) == IF lens = <<>> THEN <<>> ELSE <<<<at + 1, at + Head(lens)>>>> \o Spans(Tail(lens), at + Head(lens))

\* --- agreement
Off(a, b) == IF a > b THEN a - b ELSE b - a
Near(a, b) == Off(a, b) <= 12 + (Off(a, 0) \div 4000)
AllNear(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Near(a[k], b[k])
Shade(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Off(a[k], b[k]) <= 2
Wide(a) == \E k \in 1..Len(a) : a[k] > 12 \/ a[k] < -12
Differ(e, o) ==
  CASE e.font # o.font -> "font" [] ~Near(e.size, o.size) -> "size" [] ~Near(e.fsp, o.fsp) -> "spacing" [] e.on # o.on -> "switches"
    [] ~Shade(e.col, o.col) -> "colour" [] ~AllNear(e.bord, o.bord) -> "border"
    [] (Wide(e.bord) \/ e.box) /\ ~Shade(e.bcol, o.bcol) -> "border colour" [] e.box # o.box -> "box"
    [] ~AllNear(e.shad, o.shad) -> "shadow" [] Wide(e.shad) /\ ~Shade(e.scol, o.scol) -> "shadow colour"
    [] ~Near(e.blur, o.blur) -> "blur" [] ~Near(e.be, o.be) -> "edge blur" [] ~AllNear(e.rot, o.rot) -> "rotation"
    [] Wide(e.rot) /\ ~AllNear(e.org, o.org) -> "origin" [] ~AllNear(e.shear, o.shear) -> "shear" [] ~AllNear(e.scale, o.scale) -> "scale"
    [] ~AllNear(e.clip, o.clip) \/ (e.clip # <<>> /\ e.inv # o.inv) -> "clip"
    [] Len(e.kar) # Len(o.kar) \/ (e.kar # <<>> /\ (e.kar[2] # o.kar[2] \/ Off(e.kar[1], o.kar[1]) > 2)) -> "karaoke"
    [] ~Shade(e.kcol, o.kcol) -> "karaoke colour" [] OTHER -> ""
=============================================================================
