-------------------------------- MODULE Wrap --------------------------------
(* How the text of an event is broken into lines that fit between its         *)
(* margins. The width of each span of words of a line is taken as given.      *)
EXTENDS Place

\* --- what the text says: its words, line by line
Quoted(q) == SelectSeq(AllTags(q), LAMBDA g : g.n = "q")
Mode(q) == LET gs == Quoted(q)  v == IF gs = <<>> THEN 9 ELSE gs[Len(gs)].v[1] IN IF v \in 0..3 THEN v ELSE IF q.ws = 9 THEN 0 ELSE q.ws
Wraps(q) == Mode(q) # 2 /\ ~Positioned(q)
RECURSIVE Tell(_, _, _, _)
Tell(soft, ps, line, word) ==
  IF ps = <<>> THEN <<Append(line, word)>>
  ELSE LET p == Head(ps)
           ends == p.p = "break" \/ (p.p = "soft" /\ soft)
           gap == p.p = "soft" \/ (p.p = "text" /\ p.x # <<>> /\ p.x[1] = 32) IN
       CASE ends -> <<Append(line, word)>> \o Tell(soft, Tail(ps), <<>>, <<>>)
         [] ~ends /\ gap -> Tell(soft, IF p.p = "soft" THEN Tail(ps) ELSE <<[p EXCEPT !.x = Tail(p.x)]>> \o Tail(ps), Append(line, word), <<>>)
         [] p.p = "hard" -> Tell(soft, Tail(ps), line, word \o <<194, 160>>)
         [] p.p = "text" /\ ~gap /\ p.x # <<>> -> Tell(soft, <<[p EXCEPT !.x = Tail(p.x)]>> \o Tail(ps), line, Append(word, p.x[1]))
         [] OTHER -> Tell(soft, Tail(ps), line, word)
Stated(q) == TLCEval(Tell(Mode(q) = 2, q.text, <<>>, <<>>))
Room(q) == (q.w * 1000) - Across(q, Margin(q, 1)) - Across(q, Margin(q, 2))

\* --- where lines end: the last word of each, of m words with the widths g
Starts(ends) == [k \in 1..Len(ends) |-> IF k = 1 THEN 1 ELSE ends[k - 1] + 1]
Span(g, i, j) == g[i][j - i + 1]
Widest(g, ends) == LET b == Starts(ends) IN Max({Span(g, b[k], ends[k]) : k \in 1..Len(ends)})
Reaches(m, ends) == Len(ends) > 0 /\ ends[Len(ends)] = m /\ \A k \in 1..Len(ends) - 1 : ends[k] < ends[k + 1]
\* no line is wider than the limit unless it is one word, and none ends before it has to
Filled(g, m, ends, limit, slack) ==
  LET b == Starts(ends) IN
  /\ \A k \in 1..Len(ends) : b[k] = ends[k] \/ Span(g, b[k], ends[k]) <= limit + slack
  /\ \A k \in 1..Len(ends) - 1 : Span(g, b[k], ends[k] + 1) > limit - slack
RECURSIVE Greedy(_, _, _, _, _)
Greedy(g, m, i, j, limit) ==                                        \* the line begun at word i reaches word j so far
  IF j = m THEN <<m>> ELSE IF Span(g, i, j + 1) <= limit THEN Greedy(g, m, i, j + 1, limit) ELSE <<j>> \o Greedy(g, m, j + 1, j + 1, limit)
Pack(g, m, limit) == Greedy(g, m, 1, 1, limit)
\* the widths a limit can be, and the least of them for which n lines are enough
Limits(g, m) == UNION {{Span(g, i, j) : j \in i..m} : i \in 1..m}
Least(g, m, n) == Min({v \in Limits(g, m) : (\A i \in 1..m : Span(g, i, i) <= v) /\ Len(Pack(g, m, v)) <= n})
=============================================================================
