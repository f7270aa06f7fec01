------------------------------- MODULE TagCmd -------------------------------
(* Commands on the override tags and the karaoke timing of a range of text.   *)
(* A text is a sequence of pieces: stretches of plain text, and blocks, whose *)
(* braces nest; a brace that is never closed begins plain text. A command     *)
(* rewrites the tags it names where they stand and keeps every other byte.    *)
EXTENDS TagText
SQ == INSTANCE SequencesExt

RECURSIVE PiecesFrom(_, _, _)
PiecesFrom(t, i, acc) ==
  LET o == Find(t, LB, i)  c == IF o = 0 THEN 0 ELSE BlockEnd(t, o + 1, 1) IN
  IF c <= 0 THEN (IF i > Len(t) THEN acc ELSE Append(acc, [blk |-> FALSE, b |-> From(t, i)]))
  ELSE PiecesFrom(t, c + 1, (IF o = i THEN acc ELSE Append(acc, [blk |-> FALSE, b |-> SubSeq(t, i, o - 1)])) \o <<[blk |-> TRUE, b |-> SubSeq(t, o + 1, c - 1)]>>)
Pieces(t) == TLCEval(PiecesFrom(t, 1, <<>>))
Braced(c) == <<LB>> \o c \o <<RB>>
Whole(p) == IF p.blk THEN Braced(p.b) ELSE p.b
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
PlainOf(ps) == TLCEval(Concat([k \in 1..Len(ps) |-> IF ps[k].blk THEN <<>> ELSE ps[k].b]))

\* --- tags of a block, each with the bytes it takes: from a (its backslash) to just before z
TagsIn(c) == LET ts == Block(c, 0, 1, NoTags, NoHandlers).tags IN
  TLCEval([k \in 1..Len(ts) |-> [name |-> ts[k].name, args |-> ts[k].args, a |-> ts[k].at + 1, z |-> ts[k].at + 2 + Len(ts[k].name) + Len(ts[k].args)]])
Spelled(g) == <<BS>> \o g.name \o g.args
\* c with new[k] in place of the tag k
RECURSIVE Put(_, _, _, _, _)
Put(c, ts, new, k, from) == IF k > Len(ts) THEN From(c, from) ELSE SubSeq(c, from, ts[k].a - 1) \o new[k] \o Put(c, ts, new, k + 1, ts[k].z)
Retag(c, f(_)) == LET ts == TagsIn(c) IN Put(c, ts, [k \in 1..Len(ts) |-> f(ts[k])], 1, 1)

\* --- tag commands, on the text of the range
PatternOf(p) == IF StartsWith(p, <<BS>>) THEN Tail(p) ELSE p
Removed(t, all, pat, keep) ==
  LET ps == Pieces(t)
      new(p) == IF all THEN <<>> ELSE Retag(p.b, LAMBDA g : IF StartsWith(g.name \o g.args, PatternOf(pat)) THEN <<>> ELSE Spelled(g)) IN
  Concat([k \in 1..Len(ps) |-> IF ~ps[k].blk THEN ps[k].b ELSE LET c == new(ps[k]) IN IF c = <<>> /\ ~keep THEN <<>> ELSE Braced(c)])
Hits(c, find) == {k \in 1..Len(TagsIn(c)) : StartsWith(Spelled(TagsIn(c)[k]), find)}
ReplacedIn(c, find, with, only) ==
  LET ts == TagsIn(c) IN Put(c, ts, [k \in 1..Len(ts) |-> IF k \in only THEN with \o Drop(Spelled(ts[k]), Len(find)) ELSE Spelled(ts[k])], 1, 1)
RECURSIVE ReplaceFirst(_, _, _)
ReplaceFirst(ps, find, with) ==
  IF ps = <<>> THEN <<>>
  ELSE LET p == Head(ps) IN
       IF p.blk /\ Hits(p.b, find) # {}
       THEN LET h == Hits(p.b, find) IN Braced(ReplacedIn(p.b, find, with, {CHOOSE k \in h : \A m \in h : k <= m})) \o Concat([k \in 1..(Len(ps) - 1) |-> Whole(ps[k + 1])])
       ELSE Whole(p) \o ReplaceFirst(Tail(ps), find, with)
Replaced(t, find, with, all) ==
  LET ps == Pieces(t) IN
  IF ~all THEN ReplaceFirst(ps, find, with)
  ELSE Concat([k \in 1..Len(ps) |-> IF ps[k].blk THEN Braced(ReplacedIn(ps[k].b, find, with, Hits(ps[k].b, find))) ELSE ps[k].b])
\* the tag that ends what an opening tag starts
RECURSIVE LettersTo(_, _)
LettersTo(t, i) == IF i > Len(t) \/ ~(IsAlpha(t[i]) \/ (i = 1 /\ IsDigit(t[i]))) THEN i ELSE LettersTo(t, i + 1)
RECURSIVE NoSlash(_)
NoSlash(t) == IF t # <<>> /\ t[1] = BS THEN NoSlash(Tail(t)) ELSE t
Closing(open) == LET t == NoSlash(open)  n == SubSeq(t, 1, LettersTo(t, 1) - 1) IN
  IF n \in {B("b"), B("i"), B("u"), B("s")} THEN <<BS>> \o n \o <<48>> ELSE IF n \in {B("c"), B("1c")} THEN <<BS, 99>> ELSE <<BS, 114>>
Wrapped(t, open, close) == Braced(open) \o t \o Braced(IF close = <<>> THEN Closing(open) ELSE close)
IsWrapped(g) == g[1] = LB /\ g[Len(g)] = RB
GoodTag(g) == g # <<>> /\ (g[1] = BS \/ IsWrapped(g))
InsertedTag(g, wrap) == IF wrap /\ ~IsWrapped(g) THEN Braced(g) ELSE g

\* what parsing gives: tags with their offsets from the start of the text
Params(a) == LET x == Split(a, 44) IN [k \in 1..Len(x) |-> Trim(x[k])]
InParens(a) == Len(a) >= 2 /\ a[1] = LP /\ a[Len(a)] = RP
Told(g, at) == [tag |-> IF InParens(g.args) THEN <<BS>> \o g.name ELSE Spelled(g), at |-> at,
                params |-> IF InParens(g.args) /\ Len(g.args) > 2 THEN Params(SubSeq(g.args, 2, Len(g.args) - 1)) ELSE <<>>]
RECURSIVE Parsed(_, _)
Parsed(ps, off) == IF ps = <<>> THEN <<>>
  ELSE LET p == Head(ps)  ts == IF p.blk THEN TagsIn(p.b) ELSE <<>> IN
       [k \in 1..Len(ts) |-> Told(ts[k], off + ts[k].a)] \o Parsed(Tail(ps), off + Len(Whole(p)))

\* --- karaoke
KNames == {<<107>>, <<75>>, <<107, 102>>, <<107, 111>>, <<107, 116>>}
IsK(g) == g.name \in KNames
Timed(g) == IsK(g) /\ AllDigits(Trim(g.args)) /\ Len(Trim(g.args)) < 9
Lead(a) == LET S == {i \in 1..Len(a) : IsDigit(a[i])} IN CHOOSE i \in S : \A j \in S : i <= j
NewArgs(a, n) == SubSeq(a, 1, Lead(a) - 1) \o Digits(n) \o From(a, Lead(a) + Len(Trim(a)))
\* what becomes of the k-th duration of the range, d. num / den: f32 keeps the small numbers used here exact
NewDuration(adj, k, d) ==
  CASE adj.kind = "scale" -> MaxOf(1, (d * adj.num) \div adj.den)
    [] adj.kind = "offset" -> MaxOf(1, d + adj.num)
    [] adj.kind = "set" -> adj.num
    [] adj.kind = "custom" -> IF k <= Len(adj.list) THEN adj.list[k] ELSE d
RECURSIVE Adjusted(_, _, _)
Adjusted(ps, n, adj) ==
  IF ps = <<>> THEN <<>>
  ELSE LET p == Head(ps) IN
       IF ~p.blk THEN p.b \o Adjusted(Tail(ps), n, adj)
       ELSE LET ts == TagsIn(p.b)
                nth(k) == n + Cardinality({m \in 1..k : Timed(ts[m])})
                new(k) == IF Timed(ts[k]) THEN <<BS>> \o ts[k].name \o NewArgs(ts[k].args, NewDuration(adj, nth(k), Dec(Trim(ts[k].args)))) ELSE Spelled(ts[k]) IN
            Braced(Put(p.b, ts, TLCEval([k \in 1..Len(ts) |-> new(k)]), 1, 1)) \o Adjusted(Tail(ps), nth(Len(ts)), adj)

\* A timed text: its plain text, the karaoke tags by the plain text before them, and the same of all else in blocks
Notes(ps) ==
  LET add(z, p) == IF ~p.blk THEN [z EXCEPT !.off = @ + Len(p.b)]
                   ELSE LET ts == TagsIn(p.b)
                            rest == Put(p.b, ts, [k \in 1..Len(ts) |-> IF IsK(ts[k]) THEN <<>> ELSE Spelled(ts[k])], 1, 1)
                            ks == SelectSeq(ts, IsK) IN
                        [z EXCEPT !.kar = @ \o [k \in 1..Len(ks) |-> <<z.off, Spelled(ks[k])>>], !.other = IF rest = <<>> THEN @ ELSE Append(@, <<z.off, rest>>)]
  IN SQ!FoldLeft(add, [off |-> 0, kar |-> <<>>, other |-> <<>>], ps)
\* Where words start, counting from 0
IsWhite(x) == x \in {9, 10, 11, 12, 13, 32}
WordStarts(t) == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : ~IsWhite(t[i]) /\ (i = 1 \/ IsWhite(t[i - 1])))
\* Where the characters of t start
CharStarts(t) == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : ~IsCont(t[i]))
RECURSIVE Splits(_, _, _)
Splits(cs, ps, last) == IF ps = <<>> THEN <<>> ELSE IF Head(ps) <= last \/ Head(ps) >= Len(cs) THEN Splits(cs, Tail(ps), last)
                        ELSE <<cs[Head(ps) + 1] - 1>> \o Splits(cs, Tail(ps), Head(ps))
KTag(name, d) == <<BS>> \o name \o Digits(d)
Open(ps) == \E k \in 1..Len(ps) : ~ps[k].blk /\ Find(ps[k].b, LB, 1) # 0
\* no block has a brace in it: a tag next to one takes the brace with it
Flats(ps) == \A k \in 1..Len(ps) : ps[k].blk => Find(ps[k].b, LB, 1) = 0
\* (before, after): after times before by the given karaoke tags and keeps the rest
TimedAs(t, u, kar) == LET p == Pieces(t)  q == Pieces(u) IN
  /\ PlainOf(q) = PlainOf(p) /\ Notes(q).other = Notes(p).other /\ Notes(q).kar = kar
\* after generating: the same text, blocks of one tag each, the first at the start, one or more per word
Generated(t, u, tag, auto) ==
  LET q == Pieces(u)  ks == Notes(q).kar  at == {ks[k][1] : k \in 1..Len(ks)} IN
  /\ PlainOf(q) = t /\ \A k \in 1..Len(q) : q[k].blk => q[k].b = tag
  /\ 0 \in at /\ Cardinality(at) = Len(ks)
  /\ ~auto => Len(ks) = 1
  /\ auto => /\ \A m \in 1..Len(WordStarts(t)) : LET w == WordStarts(t)[m] IN \E a \in at : a < w /\ \A i \in (a + 1)..(w - 1) : IsWhite(t[i])
             /\ \A a \in at : a = 0 \/ \E i \in (a + 1)..Len(t) : ~IsWhite(t[i])
=============================================================================
