------------------------------ MODULE TagText ------------------------------
(* Event text: plain characters, escapes (\N \n \h), and override blocks      *)
(* {...} made of tags \name args.  Scanning a block and scanning a text are   *)
(* automata over bytes; offsets are counted from 0 in the whole text.         *)
EXTENDS Bytes, FiniteSets

BS == 92
LB == 123
RB == 125
LP == 40
RP == 41

\* --- tag names ------------------------------------------------------------------
NR == <<114>>
NFN == <<102, 110>>
NT == <<116>>
RECURSIVE NameEnd(_, _, _)
\* Index just past the tag name that starts at i: one optional leading digit, then
\* letters; "r" and "fn" take their argument without a separator.
NameEnd(t, from, i) ==
  IF i > Len(t) THEN i
  ELSE IF (i = from /\ IsDigit(t[i])) THEN NameEnd(t, from, i + 1)
  ELSE IF IsAlpha(t[i]) THEN
       LET name == SubSeq(t, from, i) IN IF name \in {NR, NFN} THEN i + 1 ELSE NameEnd(t, from, i + 1)
  ELSE i
\* Index just past the parenthesis closing the one at or after i.
RECURSIVE CloseAt(_, _, _)
CloseAt(t, i, depth) ==
  IF i > Len(t) THEN i
  ELSE IF t[i] = LP THEN CloseAt(t, i + 1, depth + 1)
  ELSE IF t[i] = RP THEN IF depth = 1 THEN i + 1 ELSE CloseAt(t, i + 1, depth - 1)
  ELSE CloseAt(t, i + 1, depth)
NextBS(t, i) == LET k == Find(t, BS, i) IN IF k = 0 THEN Len(t) + 1 ELSE k

Cheap == { B("b"), B("i"), B("u"), B("s"), B("c"), B("1c"), B("2c"), B("3c"), B("4c"), B("alpha"), B("1a"), B("2a"), B("3a"),
           B("4a"), B("fn"), B("fs") }
Costly == { B("move"), B("fad"), B("fade"), B("frx"), B("fry"), B("frz"), B("fscx"), B("fscy"), B("fsp"), B("clip"), B("iclip") }
Cost(name) == IF name \in Cheap THEN 1 ELSE IF name \in Costly THEN 3 ELSE IF name \in {NT, B("pbo")} THEN 4
              ELSE IF name = B("p") THEN 5 ELSE 2

\* Length of the UTF-8 character at i, 0 past the end.
CharLen(t, i) == IF i > Len(t) THEN 0 ELSE IF t[i] < 128 THEN 1 ELSE IF t[i] < 224 THEN 2 ELSE IF t[i] < 240 THEN 3 ELSE 4

\* --- one override block -----------------------------------------------------------
\* Handlers decide what becomes of a tag.  H lists them as <<name, outcome>>, the outcome being
\* "processed", "failed" or "ignored"; a tag without a handler is standard.
Outcome(H, name) == IF \E j \in 1..Len(H) : H[j][1] = name
                    THEN H[CHOOSE j \in 1..Len(H) : H[j][1] = name][2] ELSE "none"
NoHandlers == <<>>
\* base is the offset of the block's first byte.
RECURSIVE Block(_, _, _, _, _)
Block(t, base, i, out, H) ==
  LET k == Find(t, BS, i) IN
  IF k = 0 THEN out
  ELSE LET ne == NameEnd(t, k + 1, k + 1) IN
       IF ne = k + 1
       THEN \* a backslash naming no tag is reported with the character after it
            LET n == CharLen(t, k + 1)
                skip == IF n > 0 /\ t[k + 1] # BS THEN n ELSE 0
            IN Block(t, base, k + 1 + skip,
                     [out EXCEPT !.diag = Append(@, [at |-> base + k - 1, kind |-> "EmptyOverride", span |-> SubSeq(t, k, k + n)])], H)
       ELSE LET name == SubSeq(t, k + 1, ne - 1)
                ae == IF name = NT /\ ne <= Len(t) /\ t[ne] = LP THEN CloseAt(t, ne, 0) ELSE NextBS(t, ne)
                args == SubSeq(t, ne, ae - 1)
                h == Outcome(H, name)
                tag == [name |-> name, args |-> args, cost |-> IF h = "processed" THEN 2 ELSE Cost(name), at |-> base + k - 1]
                o1 == [out EXCEPT !.tags = Append(@, tag)]
            IN Block(t, base, ae,
                     IF h = "failed" THEN [o1 EXCEPT !.diag = Append(@, [at |-> base + k - 1, kind |-> "MalformedTag", span |-> SubSeq(t, k, ae - 1)])]
                     ELSE o1, H)
NoTags == [tags |-> <<>>, diag |-> <<>>]
\* (block bytes) -> drawing mode afterwards: the last \p with a number decides
RECURSIVE NumEnd(_, _)
NumEnd(t, i) == IF i > Len(t) \/ ~(IsDigit(t[i]) \/ t[i] = 45) THEN i ELSE NumEnd(t, i + 1)
RECURSIVE Drawing(_, _, _)
Drawing(t, i, mode) ==
  LET k == FindSub(t, <<BS, 112>>, i) IN
  IF k = 0 THEN mode
  ELSE LET e == NumEnd(t, k + 2)  num == SubSeq(t, k + 2, e - 1)
           mag == IF num # <<>> /\ num[1] = 45 THEN Tail(num) ELSE num
           ok == AllDigits(mag) /\ Len(mag) <= 9
       IN Drawing(t, e, IF ok THEN (num[1] # 45 /\ Dec(mag) > 0) ELSE mode)

\* --- a whole text -------------------------------------------------------------------
\* Index of the brace that closes the block opened before i (braces nest), 0 if none;
\* -1 when nesting exceeds the limit.
MaxDepth == 100
RECURSIVE BlockEnd(_, _, _)
BlockEnd(t, i, depth) ==
  IF i > Len(t) THEN 0
  ELSE IF t[i] = LB THEN IF depth + 1 > MaxDepth THEN -1 ELSE BlockEnd(t, i + 1, depth + 1)
  ELSE IF t[i] = RB THEN IF depth = 1 THEN i ELSE BlockEnd(t, i + 1, depth - 1)
  ELSE BlockEnd(t, i + 1, depth)

NBSP == <<194, 160>>
Visible(a, bs) == IF a.draw THEN a ELSE [a EXCEPT !.plain = @ \o bs]
RECURSIVE Scan(_, _, _, _)
Scan(t, i, a, H) ==
  IF i > Len(t) THEN a
  ELSE IF t[i] = LB THEN
    LET e0 == BlockEnd(t, i + 1, 1)  e == IF e0 = 0 THEN Len(t) + 1 ELSE e0
        body == SubSeq(t, i + 1, e - 1)
        r == Block(body, i, 1, NoTags, H)
    IN IF e0 < 0 THEN [a EXCEPT !.ok = FALSE]
       ELSE IF body = <<>>
       THEN Scan(t, e + 1, [a EXCEPT !.diag = Append(@, [at |-> i, kind |-> "EmptyOverride", span |-> IF e0 = 0 THEN <<>> ELSE <<RB>>])], H)
       ELSE Scan(t, e + 1, [a EXCEPT !.tags = @ \o r.tags, !.diag = @ \o r.diag, !.draw = Drawing(body, 1, @)], H)
  ELSE IF t[i] = BS THEN
    LET n == CharLen(t, i + 1)  c == IF n = 0 THEN 0 ELSE t[i + 1] IN
    IF n = 0 THEN Visible(a, <<BS>>)
    ELSE Scan(t, i + 1 + n, Visible(a, IF c \in {110, 78} THEN <<NL>> ELSE IF c = 104 THEN NBSP ELSE SubSeq(t, i, i + n)), H)
  ELSE Scan(t, i + 1, Visible(a, <<t[i]>>), H)
Analyze(t, H) == Scan(t, 1, [ok |-> TRUE, plain |-> <<>>, tags |-> <<>>, diag |-> <<>>, draw |-> FALSE], H)

\* Text outside blocks, with where its line breaks (\N hard, \n soft) and hard spaces came to lie.
RECURSIVE Breaks(_, _, _, _)
Breaks(t, i, draw, a) ==
  IF i > Len(t) THEN a
  ELSE IF t[i] # BS THEN Breaks(t, i + 1, draw, [a EXCEPT !.text = Append(@, t[i])])
  ELSE LET n == CharLen(t, i + 1)  c == IF n = 0 THEN 0 ELSE t[i + 1]  at == Len(a.text) IN
       IF n = 0 THEN [a EXCEPT !.text = Append(@, BS)]
       ELSE Breaks(t, i + 1 + n, draw,
              IF c \in {78, 110} THEN IF draw THEN a ELSE [a EXCEPT !.text = Append(@, NL), !.breaks = Append(@, <<at, IF c = 78 THEN "hard" ELSE "soft">>)]
              ELSE IF c = 104 THEN IF draw THEN a ELSE [a EXCEPT !.text = @ \o NBSP, !.nbsp = Append(@, at)]
              ELSE [a EXCEPT !.text = @ \o SubSeq(t, i, i + n)])
LineBreaks(t, draw) == Breaks(t, 1, draw, [text |-> <<>>, breaks |-> <<>>, nbsp |-> <<>>])

Chars(t) == Cardinality({i \in 1..Len(t) : ~IsCont(t[i])})
Newlines(t) == Cardinality({i \in 1..Len(t) : t[i] = NL})
LineCount(t) == IF t = <<>> THEN 1
                ELSE IF \A i \in 1..Len(t) : t[i] = NL THEN Len(t) + 1
                ELSE Newlines(t) + (IF t[Len(t)] = NL THEN 0 ELSE 1)
\* Code points of a text.
RECURSIVE Points(_, _, _)
Points(t, i, acc) ==
  IF i > Len(t) THEN acc
  ELSE LET n == CharLen(t, i)
           v == IF n = 1 THEN t[i]
                ELSE IF n = 2 THEN (t[i] % 32) * 64 + (t[i + 1] % 64)
                ELSE IF n = 3 THEN ((t[i] % 16) * 64 + (t[i + 1] % 64)) * 64 + (t[i + 2] % 64)
                ELSE (((t[i] % 8) * 64 + (t[i + 1] % 64)) * 64 + (t[i + 2] % 64)) * 64 + (t[i + 3] % 64)
       IN Points(t, i + n, acc \cup {v})
In(v, a, z) == a <= v /\ v <= z
Bidi(t) == \E v \in Points(t, 1, {}) : In(v, 1424, 1791) \/ In(v, 1872, 1919) \/ In(v, 2208, 2303)
Complex(t) == \E v \in Points(t, 1, {}) : v > 255 \/ v < 32 \/ In(v, 127, 159)
=============================================================================
