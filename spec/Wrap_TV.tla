------------------------------ MODULE Wrap_TV -------------------------------
EXTENDS Wrap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
RECURSIVE Joined(_, _, _)
Joined(ws, i, j) == IF i = j THEN ws[i] ELSE ws[i] \o <<32>> \o Joined(ws, i + 1, j)
\* the rows that make up the line of these words: each word's end, as rows are taken from the k-th on
RECURSIVE Taken(_, _, _, _)
Taken(rows, k, ws, i) ==
  IF i > Len(ws) THEN <<>> ELSE IF k > Len(rows) THEN <<0>>
  ELSE LET fits == {j \in i..Len(ws) : rows[k].x = Joined(ws, i, j)} IN
       IF fits = {} THEN <<0>> ELSE LET j == CHOOSE v \in fits : TRUE IN <<j>> \o Taken(rows, k + 1, ws, j + 1)
Void(ws) == ws = <<<<>>>>
RECURSIVE Laid(_, _, _)
Laid(rows, k, ls) ==
  IF ls = <<>> THEN (IF k = Len(rows) + 1 THEN <<>> ELSE <<<<0>>>>)
  ELSE IF Void(Head(ls)) THEN <<<<>>>> \o Laid(rows, k, Tail(ls))
  ELSE LET e == Taken(rows, k, Head(ls), 1) IN IF 0 \in {e[n] : n \in 1..Len(e)} THEN <<e>> ELSE <<e>> \o Laid(rows, k + Len(e), Tail(ls))
Slack == 1500
Broken(q, g, m, e) ==
  LET n == Len(e)  room == Room(q)  need == Len(Pack(g, m, room + Slack))  may == Len(Pack(g, m, room - Slack)) IN
  IF ~Wraps(q) THEN (IF n = 1 THEN "" ELSE "broken though it is not to be")
  ELSE IF n < need THEN "broken into " \o ToString(n) \o " lines, " \o ToString(need) \o " are needed"
  ELSE IF n > may THEN "broken into " \o ToString(n) \o " lines, " \o ToString(may) \o " are enough"
  ELSE IF Mode(q) = 1 \/ n = 1 THEN (IF Filled(g, m, e, room, Slack) THEN "" ELSE "lines end at the words " \o ToString(e) \o " rather than " \o ToString(Pack(g, m, room)))
  ELSE IF \E i \in 1..m : Span(g, i, i) > room                          \* then nothing can be evened out
  THEN (IF Filled(g, m, e, room, Slack) THEN "" ELSE "lines end at the words " \o ToString(e) \o " rather than " \o ToString(Pack(g, m, room)))
  ELSE LET best == Least(g, m, n) IN
       IF Widest(g, e) > best + Slack THEN "as wide as " \o ToString(Widest(g, e)) \o " rather than " \o ToString(best)
       ELSE IF Filled(g, m, e, best, 2 * Slack) THEN "" ELSE "lines end at the words " \o ToString(e) \o " rather than " \o ToString(Pack(g, m, best))
Err(r) ==
  LET ls == Stated(r)  es == TLCEval(Laid(r.rows, 1, ls)) IN
  IF r.lines # [k \in 1..Len(ls) |-> IF Void(ls[k]) THEN <<>> ELSE ls[k]] THEN "the words are " \o ToString(ls)
  ELSE IF \E k \in 1..Len(es) : 0 \in {es[k][n] : n \in 1..Len(es[k])} THEN "not the words of the text: " \o ToString(es)
  ELSE LET amiss == {k \in 1..Len(ls) : ~Void(ls[k]) /\ Broken(r, r.span[k], Len(ls[k]), es[k]) # ""} IN
       IF amiss # {} THEN LET k == Min(amiss) IN "line " \o ToString(k) \o " " \o Broken(r, r.span[k], Len(ls[k]), es[k]) ELSE ""
How(r) == LET n == Len(r.rows)  m == Cardinality({k \in 1..Len(Stated(r)) : ~Void(Stated(r)[k])}) IN
  "wrap/" \o ToString(Mode(r)) \o (IF Positioned(r) THEN "/placed" ELSE "") \o "/" \o (IF n > m THEN "broken" ELSE "kept")
Reset(r) == [st |-> [ok |-> TRUE], err |-> "", tag |-> "reset"]
Step(s, r) == [st |-> [ok |-> TRUE], err |-> Err(r), tag |-> How(r)]
INSTANCE TraceRun
=============================================================================
