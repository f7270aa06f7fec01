-------------------------------- MODULE Draw --------------------------------
(* Drawing commands: what a drawing's text says, and the outline it describes. *)
(* Coordinates are kept in 600ths, so that two decimals and the sixths that    *)
(* splines need are whole numbers.                                            *)
EXTENDS Bytes

LOCAL BSL == 92
\* --- tokens: letters stand alone, in either case; anything else runs until white space or a letter; an override tag ends the drawing
Text(t) == LET k == Find(t, BSL, 1) IN IF k = 0 THEN t ELSE SubSeq(t, 1, k - 1)
RECURSIVE WordEnd(_, _)
WordEnd(t, i) == IF i > Len(t) \/ IsAlpha(t[i]) \/ WsAt(t, i) > 0 THEN i ELSE WordEnd(t, i + 1)
RECURSIVE TokensFrom(_, _, _)
TokensFrom(t, i, acc) == IF i > Len(t) THEN acc
                         ELSE IF WsAt(t, i) > 0 THEN TokensFrom(t, i + WsAt(t, i), acc)
                         ELSE IF IsAlpha(t[i]) THEN TokensFrom(t, i + 1, Append(acc, <<LowerC(t[i])>>))
                         ELSE LET j == WordEnd(t, i) IN TokensFrom(t, j, Append(acc, SubSeq(t, i, j - 1)))
Tokens(t) == TokensFrom(Text(t), 1, <<>>)
Letters == {B("m")[1], B("n")[1], B("l")[1], B("b")[1], B("s")[1], B("p")[1], B("c")[1]}
IsCommand(k) == Len(k) = 1 /\ k[1] \in Letters

\* --- numbers
Unsign(k) == IF k # <<>> /\ k[1] \in {43, 45} THEN Tail(k) ELSE k
Whole(k) == LET u == Unsign(k)  d == Find(u, 46, 1) IN IF d = 0 THEN u ELSE SubSeq(u, 1, d - 1)
Part(k) == LET u == Unsign(k)  d == Find(u, 46, 1) IN IF d = 0 THEN <<>> ELSE From(u, d + 1)
IsNumber(k) == AllDigits(Whole(k) \o Part(k))
At600(k) == LET p == Part(k) \o <<48, 48>>
                v == 600 * Dec(Whole(k)) + 60 * (p[1] - 48) + 6 * (p[2] - 48) IN IF k[1] = 45 THEN -v ELSE v

\* --- commands: the points after a letter, n numbers at a time, until the next letter or until too few tokens are left
Short == [ok |-> FALSE, at |-> 0, pts |-> <<>>]
RECURSIVE Groups(_, _, _, _)
Groups(ks, i, n, acc) ==
  IF i + n - 1 > Len(ks) \/ IsCommand(ks[i]) THEN [ok |-> TRUE, at |-> i, pts |-> acc]
  ELSE IF \E j \in i..(i + n - 1) : ~IsNumber(ks[j]) THEN Short
  ELSE Groups(ks, i + n, n, Append(acc, [j \in 1..n |-> At600(ks[i + j - 1])]))
Named(name, pts) == [j \in 1..Len(pts) |-> <<name>> \o pts[j]]
RECURSIVE Flat(_)
Flat(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps) \o Flat(Tail(ps))
LastIs(cs, name) == cs # <<>> /\ cs[Len(cs)][1] = name
Bad == << <<"error">> >>
RECURSIVE Read(_, _, _)
Read(ks, i, acc) ==
  IF i > Len(ks) THEN acc
  ELSE LET c == ks[i] IN
       CASE c = B("m") -> (IF i + 2 > Len(ks) \/ ~IsNumber(ks[i + 1]) \/ ~IsNumber(ks[i + 2]) THEN Bad
                           ELSE LET g == Groups(ks, i + 3, 2, <<>>) IN
                                IF ~g.ok THEN Bad ELSE Read(ks, g.at, acc \o << <<"m", At600(ks[i + 1]), At600(ks[i + 2])>> >> \o Named("l", g.pts)))
         [] c \in {B("n"), B("l"), B("b")} ->
                          (LET name == IF c = B("n") THEN "n" ELSE IF c = B("l") THEN "l" ELSE "b"
                               g == Groups(ks, i + 1, IF name = "b" THEN 6 ELSE 2, <<>>)
                               all == acc \o Named(name, g.pts) IN
                           \* a letter with nothing after it is let pass only as more of the same
                           IF ~g.ok \/ ~LastIs(all, name) THEN Bad ELSE Read(ks, g.at, all))
         [] c \in {B("s"), B("p")} ->
                          (LET g == Groups(ks, i + 1, 2, <<>>)
                               closed == IF c = B("s") /\ g.pts # <<>> /\ g.pts[1] # g.pts[Len(g.pts)] THEN Append(g.pts, g.pts[1]) ELSE g.pts IN
                           IF ~g.ok \/ Len(g.pts) \in {1, 2} THEN Bad
                           ELSE Read(ks, g.at, IF g.pts = <<>> THEN acc ELSE Append(acc, <<IF c = B("s") THEN "s" ELSE "p">> \o Flat(closed))))
         [] c = B("c") -> Read(ks, i + 1, Append(acc, <<"c">>))
         [] OTHER -> Read(ks, i + 1, acc)
Commands(t) == Read(Tokens(t), 1, <<>>)

\* --- the outline
Pen0 == [segs |-> <<>>, lost |-> TRUE, from |-> <<0, 0>>]
Last(p) == p.segs[Len(p.segs)]
Moved(p, x, y) == [segs |-> IF p.segs # <<>> /\ Last(p)[1] = "M" THEN [p.segs EXCEPT ![Len(p.segs)] = <<"M", x, y>>] ELSE Append(p.segs, <<"M", x, y>>),
                   lost |-> FALSE, from |-> <<x, y>>]
Set(p) == IF p.lost THEN Moved(p, p.from[1], p.from[2]) ELSE p
Drawn(p, seg) == LET q == Set(p) IN [q EXCEPT !.segs = Append(@, seg)]
Closed(p) == [p EXCEPT !.lost = TRUE, !.segs = IF @ = <<>> \/ Last(p)[1] = "Z" THEN @ ELSE Append(@, <<"Z">>)]
\* a spline's stretch towards its point j+1, its ends aimed along the chords beside it
Pt(c, j) == <<c[2 * j], c[2 * j + 1]>>
Count(c) == (Len(c) - 1) \div 2
Stretch(c, j) == LET n == Count(c)
                     p0 == Pt(c, IF j > 1 THEN j - 1 ELSE j)  p1 == Pt(c, j)  p2 == Pt(c, j + 1)  p3 == Pt(c, IF j + 2 <= n THEN j + 2 ELSE j + 1) IN
                 <<"C", p1[1] + ((p2[1] - p0[1]) \div 6), p1[2] + ((p2[2] - p0[2]) \div 6),
                   p2[1] - ((p3[1] - p1[1]) \div 6), p2[2] - ((p3[2] - p1[2]) \div 6), p2[1], p2[2]>>
RECURSIVE Curve(_, _, _)
Curve(p, c, j) == IF j >= Count(c) THEN p ELSE Curve(Drawn(p, Stretch(c, j)), c, j + 1)
One(p, c) == CASE c[1] \in {"m", "n"} -> Moved(p, c[2], c[3])
               [] c[1] = "l" -> Drawn(p, <<"L", c[2], c[3]>>)
               [] c[1] = "b" -> Drawn(p, <<"C">> \o Tail(c))
               [] c[1] \in {"s", "p"} -> Curve(p, c, 1)
               [] c[1] = "c" -> Closed(p)
RECURSIVE Follow(_, _, _)
Follow(p, cs, i) == IF i > Len(cs) THEN p ELSE Follow(One(p, cs[i]), cs, i + 1)
\* nothing at all for a drawing that cannot be read, and for one that only moves
Outline(cs) == IF cs = Bad THEN <<>> ELSE LET p == Follow(Pen0, cs, 1) IN IF Len(p.segs) <= 1 THEN <<>> ELSE p.segs
=============================================================================
