-------------------------------- MODULE Media ---------------------------------
(* Files embedded in a script: what adding, removing, clearing and listing    *)
(* fonts and graphics do to the document, stated on what the document says    *)
(* (AssParse!DocData). k is "fonts" or "graphics".                            *)
EXTENDS AssParse
C == INSTANCE Codec
Doc(t) == DocData(Parse(t))
\* every section of the kind, by place
Of(d, k) == SelectSeq([i \in 1..Len(d.secs) |-> i], LAMBDA i : d.secs[i].k = k)
RECURSIVE FilesIn(_, _, _)
FilesIn(d, is, n) == IF n > Len(is) THEN <<>> ELSE d.secs[is[n]].items \o FilesIn(d, is, n + 1)
Files(d, k) == FilesIn(d, Of(d, k), 1)
Names(d, k) == LET f == Files(d, k) IN [i \in 1..Len(f) |-> f[i].name]
File(name, lines) == [name |-> Trim(name), data |-> lines]
\* The text of one file, and whether it reads back as that file and nothing else
RECURSIVE Joined(_)
Joined(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls) \o <<NL>> \o Joined(Tail(ls))
Key(k) == IF k = "fonts" THEN KFont ELSE KGraphic
Head0(k) == <<OB>> \o (IF k = "fonts" THEN HFonts ELSE HGraphics) \o <<CB, NL>>
Entry(k, name, lines) == Key(k) \o B(": ") \o name \o <<NL>> \o Joined(lines)
Embeds(k, name, lines) == Doc(Head0(k) \o Entry(k, name, lines)).secs = <<[k |-> k, items |-> <<File(name, lines)>>]>>

Added(d, k, name, lines) ==
  IF Of(d, k) = <<>> THEN [d EXCEPT !.secs = Append(@, [k |-> k, items |-> <<File(name, lines)>>])]
  ELSE [d EXCEPT !.secs[Of(d, k)[1]].items = Append(@, File(name, lines))]
\* the first file of the name: its section and its place there; <<>> if there is none
RECURSIVE FirstIn(_, _, _)
FirstIn(items, name, j) == IF j > Len(items) THEN 0 ELSE IF items[j].name = name THEN j ELSE FirstIn(items, name, j + 1)
RECURSIVE FirstOf(_, _, _, _)
FirstOf(d, is, n, name) == IF n > Len(is) THEN <<>>
                           ELSE LET j == FirstIn(d.secs[is[n]].items, name, 1) IN IF j > 0 THEN <<is[n], j>> ELSE FirstOf(d, is, n + 1, name)
Place(d, k, name) == FirstOf(d, Of(d, k), 1, Trim(name))
Without(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Removed(d, k, name) == LET w == Place(d, k, name) IN IF w = <<>> THEN d ELSE [d EXCEPT !.secs[w[1]].items = Without(@, w[2])]
Cleared(d, k) == [d EXCEPT !.secs = [i \in 1..Len(@) |-> IF @[i].k = k THEN [@[i] EXCEPT !.items = <<>>] ELSE @[i]]]

\* b is a with one stretch put in
Starts(a, b, n) == SubSeq(a, 1, n) = SubSeq(b, 1, n)
Ends(a, b, n) == SubSeq(a, Len(a) - n + 1, Len(a)) = SubSeq(b, Len(b) - n + 1, Len(b))
\* how far two texts agree, from the start and from the end, by halving
RECURSIVE Same(_, _, _, _)
Same(a, b, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF Starts(a, b, m) THEN Same(a, b, m, hi) ELSE Same(a, b, lo, m - 1)
RECURSIVE SameEnd(_, _, _, _)
SameEnd(a, b, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF Ends(a, b, m) THEN SameEnd(a, b, m, hi) ELSE SameEnd(a, b, lo, m - 1)
OnePut(a, b) == Len(a) <= Len(b) /\ Same(a, b, 0, Len(a)) + SameEnd(a, b, 0, Len(a)) >= Len(a)

\* The text outside the sections of a kind, line by line: headers count as outside
RECURSIVE Outside(_, _, _, _)
Outside(ls, i, k, within) ==
  IF i > Len(ls) THEN <<>>
  ELSE LET tr == Trim(ls[i].b) IN
       IF IsHeaderish(tr) THEN <<ls[i].b>> \o Outside(ls, i + 1, k, Has(tr, CB) /\ SectionKind(HeaderName(tr)) = k)
       ELSE IF within THEN Outside(ls, i + 1, k, TRUE) ELSE <<ls[i].b>> \o Outside(ls, i + 1, k, FALSE)
Rest(t, k) == Outside(ParseLines(t), 1, k, FALSE)
===============================================================================
