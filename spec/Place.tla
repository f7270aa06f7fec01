------------------------------- MODULE Place --------------------------------
(* Where the text and the drawings of an event are placed. Numbers are        *)
(* thousandths: of script units where they are the script's, of pixels in     *)
(* what is compared. What is in force over a piece of text is that of Runs.   *)
EXTENDS Runs

\* --- from the script to the frame, along each axis
Across(q, v) == Part(v, <<q.w, IF q.px = 0 THEN q.w ELSE q.px>>)
Down(q, v) == Part(v, <<q.hh, IF q.py = 0 THEN q.hh ELSE q.py>>)
\* --- what holds for all of the event: the first tag of a kind, wherever it stands
Flat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
AllTags(q) == Flat([k \in 1..Len(q.text) |-> IF q.text[k].p = "tags" THEN q.text[k].ts ELSE <<>>])
Legacy == <<1, 2, 3, 0, 7, 8, 9, 0, 4, 5, 6>>
Aligns(g) == \/ g.n = "an" /\ g.v[1] \in 1..9
             \/ g.n = "a" /\ g.v[1] \in 1..11 /\ Legacy[g.v[1]] # 0
Alignment(q) ==
  LET gs == SelectSeq(AllTags(q), LAMBDA g : g.n \in {"a", "an"} /\ Aligns(g)) IN
  IF gs = <<>> THEN EventStyle(q).num ELSE IF gs[1].n = "an" THEN gs[1].v[1] ELSE Legacy[gs[1].v[1]]
Placing(q) == SelectSeq(AllTags(q), LAMBDA g : g.n \in {"pos", "move"})
Positioned(q) == Placing(q) # <<>>
\* a \move goes from its first time to its second; without times (or with zeros) over the event
Covered(q, g) ==
  LET given == Len(g.v) = 6 /\ (g.v[5] # 0 \/ g.v[6] # 0)
      from == IF given THEN Min({g.v[5], g.v[6]}) ELSE 0
      to == IF given THEN Max({g.v[5], g.v[6]}) ELSE (q.to - q.from) * 10
      now == (q.t - q.from) * 10 IN
  IF now <= from THEN <<0, 1>> ELSE IF now >= to THEN <<1, 1>> ELSE Lowest(<<now - from, to - from>>)
Column(a) == (a - 1) % 3                \* 0 left, 1 centre, 2 right
Row(a) == (a - 1) \div 3                \* 0 bottom, 1 middle, 2 top
Margin(q, k) == 1000 * IF q.emg[k] > 0 THEN q.emg[k] ELSE EventStyle(q).mg[k]
Anchor(q) ==
  LET g == Placing(q)[1]  a == Alignment(q)
      left == Across(q, Margin(q, 1))  right == (q.w * 1000) - Across(q, Margin(q, 2))  edge == Down(q, Margin(q, 3)) IN
  IF Positioned(q)
  THEN IF g.n = "pos" THEN <<Across(q, g.v[1] * 1000), Down(q, g.v[2] * 1000)>>
       ELSE LET f == Covered(q, g) IN <<Across(q, Toward(g.v[1] * 1000, g.v[3] * 1000, f)), Down(q, Toward(g.v[2] * 1000, g.v[4] * 1000, f))>>
  ELSE <<CASE Column(a) = 0 -> left [] Column(a) = 1 -> (left + right) \div 2 [] Column(a) = 2 -> right,
         CASE Row(a) = 0 -> (q.hh * 1000) - edge [] Row(a) = 1 -> q.hh * 500 [] Row(a) = 2 -> edge>>
Left(q, wide) == LET a == Alignment(q)  x == Anchor(q)[1] IN CASE Column(a) = 0 -> x [] Column(a) = 1 -> x - (wide \div 2) [] Column(a) = 2 -> x - wide
Top(q, high) == LET a == Alignment(q)  y == Anchor(q)[2] IN CASE Row(a) = 0 -> y - high [] Row(a) = 1 -> y - (high \div 2) [] Row(a) = 2 -> y

\* --- the lines of the text: each a sequence of pieces with what is in force over them
RECURSIVE Rows(_, _, _, _)
Rows(q, z, ps, line) ==
  IF ps = <<>> THEN <<line>>
  ELSE LET p == Head(ps) IN
       CASE p.p = "tags" -> Rows(q, FoldLeft(LAMBDA a, g : Apply(q, a, g), z, p.ts), Tail(ps), line)
         [] p.p = "break" -> <<line>> \o Rows(q, z, Tail(ps), <<>>)
         [] OTHER -> LET x == IF p.p = "hard" THEN <<194, 160>> ELSE p.x IN
                     Rows(q, z, Tail(ps), IF x = <<>> \/ z.draw THEN line ELSE Append(line, [x |-> x, z |-> z]))
Lines(q) == TLCEval(Rows(q, Fresh(q), q.text, <<>>))
Bytes(line) == FoldLeft(LAMBDA a, p : a + Len(p.x), 0, line)
Sum(f) == FoldLeft(LAMBDA a, x : a + x, 0, f)
\* a line is as high as the largest size of the text; one without text half of that
Pitch(q, ls) == Down(q, Max({Number(ls[k][j].z, "fs") : <<k, j>> \in UNION {{<<m, n>> : n \in 1..Len(ls[m])} : m \in 1..Len(ls)}}))
High(pitch, line) == IF line = <<>> THEN pitch \div 2 ELSE pitch
=============================================================================
