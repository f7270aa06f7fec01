------------------------------- MODULE Places ---------------------------------
(* Places in a text: a byte offset between characters, a line with a column   *)
(* (both from 1, columns in characters), the end of a line; and the edits at  *)
(* a place or on a selection of lines. A line ends after its line break: LF,  *)
(* VT, FF, CR, CR LF, NEL, LS or PS; the last line has none.                  *)
EXTENDS Bytes, FiniteSets
Cont(c) == c >= 128 /\ c < 192
Edge(t, p) == p >= 0 /\ p <= Len(t) /\ (p = Len(t) \/ ~Cont(t[p + 1]))
\* bytes of the line break at index i (from 1), 0 if there is none
BreakAt(t, i) ==
  IF t[i] = 13 THEN (IF i < Len(t) /\ t[i + 1] = 10 THEN 2 ELSE 1)
  ELSE IF t[i] \in 10..12 THEN 1
  ELSE IF t[i] = 194 /\ t[i + 1] = 133 THEN 2
  ELSE IF t[i] = 226 /\ t[i + 1] = 128 /\ t[i + 2] \in {168, 169} THEN 3 ELSE 0
\* every line: where it starts, where it ends before its break, and where the next one starts
RECURSIVE LinesOf(_, _, _)
LinesOf(t, s, i) ==
  IF i > Len(t) THEN <<[s |-> s, e |-> Len(t), n |-> Len(t)]>>
  ELSE LET k == BreakAt(t, i) IN
       IF k = 0 THEN LinesOf(t, s, i + 1) ELSE <<[s |-> s, e |-> i - 1, n |-> i - 1 + k]>> \o LinesOf(t, i - 1 + k, i + k)
Rows(t) == LinesOf(t, 0, 1)
Chars(t, a, b) == Cardinality({i \in (a + 1)..b : ~Cont(t[i])})
RowAt(rs, p) == CHOOSE i \in 1..Len(rs) : rs[i].s <= p /\ (i = Len(rs) \/ p < rs[i + 1].s)
LineCol(t, p) == LET rs == Rows(t)  i == RowAt(rs, p) IN <<i, Chars(t, rs[i].s, p) + 1>>
\* where so many characters after p are, -1 if there are not as many
After(t, p, n) == LET q == {x \in p..Len(t) : Edge(t, x) /\ Chars(t, p, x) = n} IN IF q = {} THEN 0 - 1 ELSE CHOOSE x \in q : TRUE
Before(t, p, n) == IF Chars(t, 0, p) <= n THEN 0 ELSE After(t, 0, Chars(t, 0, p) - n)
\* the place at a line and column, -1 if there is none: past its last character a line is the next one
PlaceAt(t, line, col) ==
  LET rs == Rows(t) IN
  IF line < 1 \/ line > Len(rs) \/ col < 1 THEN 0 - 1
  ELSE LET p == After(t, rs[line].s, col - 1) IN IF p > rs[line].n \/ (p = rs[line].n /\ line < Len(rs)) THEN 0 - 1 ELSE p
Splice(t, a, b, x) == SubSeq(t, 1, a) \o x \o From(t, b + 1)
ToLineEnd(t, p, x) == LET e == Rows(t)[LineCol(t, p)[1]].e IN Splice(t, p, IF e < p THEN p ELSE e, x)
\* the lines from a's to b's, each with a new beginning
RECURSIVE Redone(_, _, _, _, _)
Redone(t, rs, i, j, n) ==
  IF i > Len(rs) THEN <<>>
  ELSE LET row == SubSeq(t, rs[i].s + 1, rs[i].n)
           lead == CHOOSE k \in 0..Len(row) : (\A x \in 1..k : row[x] = 32) /\ (k = Len(row) \/ row[k + 1] # 32)
           off == IF 0 - n < lead THEN 0 - n ELSE lead
       IN (IF i > j \/ i < 1 THEN row ELSE IF n >= 0 THEN [x \in 1..n |-> 32] \o row ELSE From(row, off + 1)) \o Redone(t, rs, i + 1, j, n)
Shifted(t, a, b, n) == LET rs == Rows(t)  i == RowAt(rs, a)  j == RowAt(rs, b) IN SubSeq(t, 1, rs[i].s) \o Redone(t, rs, i, j, n)

\* ranges of numbers, half open
Norm(a, b) == IF a <= b THEN <<a, b>> ELSE <<b, a>>
Lo(a, b) == IF a <= b THEN a ELSE b
Hi(a, b) == IF a <= b THEN b ELSE a
In(r, p) == r[1] <= p /\ p < r[2]
Meet(r, q) == {p \in Lo(r[1], q[1])..Hi(r[2], q[2]) : In(r, p) /\ In(q, p)}
===============================================================================
