------------------------------- MODULE Search -------------------------------
(* Finding text in a document. A match is a stretch of whole characters that  *)
(* spells the pattern; matches are taken from the left and do not overlap.    *)
EXTENDS Bytes, TLC
\* --- case: each character's lower case (of the characters used here)
IsUp(c) == c >= 65 /\ c <= 90
FoldChar(c) ==
  IF Len(c) = 1 THEN (IF IsUp(c[1]) THEN <<c[1] + 32>> ELSE c)
  ELSE IF Len(c) = 2 /\ c[1] = 195 /\ c[2] >= 128 /\ c[2] <= 158 /\ c[2] # 151 THEN <<195, c[2] + 32>>
  ELSE IF Len(c) = 2 /\ c[1] = 208 /\ c[2] >= 144 /\ c[2] <= 159 THEN <<208, c[2] + 32>>
  ELSE IF Len(c) = 2 /\ c[1] = 208 /\ c[2] >= 160 /\ c[2] <= 175 THEN <<209, c[2] - 32>>
  ELSE IF c = <<196, 176>> THEN <<105, 204, 135>>
  ELSE IF c = <<226, 132, 170>> THEN <<107>>
  ELSE c
\* letters, digits and the underscore
IsWordChar(c) ==
  IF Len(c) = 1 THEN IsAlpha(c[1]) \/ IsDigit(c[1]) \/ c[1] = 95
  ELSE (c[1] = 195 /\ c[2] \notin {151, 183}) \/ c[1] \in {196, 208, 209} \/ c = <<226, 132, 170>> \/ (c[1] >= 228 /\ c[1] <= 233)

\* characters of a text: where each starts (counting from 0), and what it is
Chars(t) == LET a == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : ~IsCont(t[i])) IN
  TLCEval([k \in 1..Len(a) |-> [at |-> a[k] - 1, b |-> SubSeq(t, a[k], IF k < Len(a) THEN a[k + 1] - 1 ELSE Len(t))]])

\* --- scopes: stretches of the text <<from, to>>, from 0
\* where lines start, from 0; and a line's end without its line feed
LineStarts(t) == TLCEval(<<0>> \o SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i] = 10))
LinesOf(t) == LET a == LineStarts(t)  z == [k \in 1..Len(a) |-> IF k < Len(a) THEN a[k + 1] - 1 ELSE Len(t)] IN
  TLCEval([k \in 1..Len(a) |-> [a |-> a[k], z |-> z[k], b |-> SubSeq(t, a[k] + 1, z[k])]])
HeaderOf(x) == LET y == Trim(x) IN IF Len(y) >= 2 /\ y[1] = 91 /\ y[Len(y)] = 93 THEN <<SubSeq(y, 2, Len(y) - 1)>> ELSE <<>>
RECURSIVE SectionsFrom(_, _, _)
\* the stretches of the named sections, each from its header to before the next
SectionsFrom(ls, names, open) ==
  IF ls = <<>> THEN open
  ELSE LET x == Head(ls)  h == HeaderOf(x.b) IN
       IF h # <<>> THEN open \o SectionsFrom(Tail(ls), names, IF \E k \in 1..Len(names) : names[k] = h[1] THEN <<<<x.a, x.z>>>> ELSE <<>>)
       ELSE SectionsFrom(Tail(ls), names, IF open = <<>> THEN <<>> ELSE <<<<open[1][1], x.z>>>>)
Regions(t, sc) ==
  CASE sc.kind = "all" -> <<<<0, Len(t)>>>>
    [] sc.kind = "range" -> <<<<sc.a, MinOf(sc.b, Len(t))>>>>
    [] sc.kind = "lines" -> LET ls == LinesOf(t) IN IF sc.a > sc.b \/ sc.a >= Len(ls) THEN <<>> ELSE <<<<ls[sc.a + 1].a, ls[MinOf(sc.b + 1, Len(ls))].z>>>>
    [] sc.kind = "sections" -> SectionsFrom(LinesOf(t), sc.names, <<>>)

\* --- matches
\* the number of characters from the k-th on that spell p; 0 if none do
RECURSIVE SpellsFrom(_, _, _, _)
SpellsFrom(cs, k, p, n) == IF p = <<>> THEN n ELSE IF k > Len(cs) \/ ~StartsWith(p, cs[k].f) THEN 0 ELSE SpellsFrom(cs, k + 1, Drop(p, Len(cs[k].f)), n + 1)
RECURSIVE FoldAll(_)
FoldAll(cs) == IF cs = <<>> THEN <<>> ELSE FoldChar(Head(cs).b) \o FoldAll(Tail(cs))
\* the places <<k, n>> where the n characters from the k-th on spell p, whole words only if asked for
Places(cs, p, whole) ==
  LET c == TLCEval(SelectSeq([k \in 1..Len(cs) |-> k], LAMBDA k : cs[k].f[1] = p[1]))
      n == TLCEval([j \in 1..Len(c) |-> <<c[j], SpellsFrom(cs, c[j], p, 0)>>]) IN
  TLCEval(SelectSeq(n, LAMBDA x : x[2] > 0 /\ (~whole \/ ((x[1] = 1 \/ ~cs[x[1] - 1].w) /\ (x[1] + x[2] > Len(cs) \/ ~cs[x[1] + x[2]].w)))))
\* those taken from the left within a stretch: characters k.. up to z (exclusive)
RECURSIVE MatchesFrom(_, _, _, _, _, _)
MatchesFrom(cs, ps, k, z, max, acc) ==
  IF ps = <<>> \/ (max > 0 /\ Len(acc) >= max) THEN acc
  ELSE LET x == Head(ps) IN
       IF x[1] >= k /\ x[1] + x[2] <= z THEN MatchesFrom(cs, Tail(ps), x[1] + x[2], z, max, Append(acc, <<cs[x[1]].at, cs[x[1] + x[2] - 1].at + Len(cs[x[1] + x[2] - 1].b)>>))
       ELSE MatchesFrom(cs, Tail(ps), k, z, max, acc)
FirstAt(cs, o) == LET S == {k \in 1..Len(cs) : cs[k].at >= o} IN IF S = {} THEN Len(cs) + 1 ELSE CHOOSE k \in S : \A m \in S : k <= m
EndAt(cs, o) == LET S == {k \in 1..Len(cs) : cs[k].at + Len(cs[k].b) <= o} IN IF S = {} THEN 1 ELSE 1 + CHOOSE k \in S : \A m \in S : k >= m
RECURSIVE InRegions(_, _, _, _, _)
InRegions(cs, rs, ps, o, acc) == IF rs = <<>> THEN acc ELSE InRegions(cs, Tail(rs), ps, o, MatchesFrom(cs, ps, FirstAt(cs, Head(rs)[1]), EndAt(cs, Head(rs)[2]), o.max, acc))
\* the matches of pattern in t as o asks: <<from, to>> of each, in order
Matches(t, pattern, o) ==
  IF pattern = <<>> \/ t = <<>> THEN <<>>
  ELSE LET c == Chars(t)
           cs == TLCEval([k \in 1..Len(c) |-> [at |-> c[k].at, b |-> c[k].b, f |-> IF o.exact THEN c[k].b ELSE FoldChar(c[k].b), w |-> IsWordChar(c[k].b)]])
           p == TLCEval(IF o.exact THEN pattern ELSE FoldAll(Chars(pattern))) IN
       TLCEval(InRegions(cs, Regions(t, o.scope), Places(cs, p, o.whole), o, <<>>))
\* what is told of a match
ToldIn(ls, t, m) == LET k == CHOOSE j \in 1..Len(ls) : ls[j].a <= m[1] /\ m[1] <= ls[j].z IN
  [s |-> m[1], e |-> m[2], text |-> SubSeq(t, m[1] + 1, m[2]), ctx |-> ls[k].b, line |-> k - 1, col |-> m[1] - ls[k].a]
Told(t, m) == ToldIn(LinesOf(t), t, m)
RECURSIVE ReplaceAll(_, _, _, _)
ReplaceAll(t, ms, new, from) == IF ms = <<>> THEN From(t, from + 1) ELSE SubSeq(t, from + 1, Head(ms)[1]) \o new \o ReplaceAll(t, Tail(ms), new, Head(ms)[2])
Replaced(t, pattern, new, o) == LET ms == Matches(t, pattern, o) IN ReplaceAll(t, ms, new, 0)
=============================================================================
