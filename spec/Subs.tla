-------------------------------- MODULE Subs --------------------------------
(* Subtitles of other formats. A SubRip or WebVTT file and a script mean the  *)
(* same when they show the same lines, with the same switches of bold, italic *)
(* and underline, at the same times. The meaning of a file is a sequence of   *)
(* cues; a line of a cue is a sequence of bytes and, above 1000, of switches. *)
EXTENDS AssParse
C == INSTANCE Codec
SQ == INSTANCE SequencesExt

\* --- switches
Odd == <<"b", "i", "u", "s">>
Switch(k, on) == 1000 + (2 * k) + (IF on THEN 0 ELSE 1)
HtmlMarks == [k \in 1..4 |-> <<60>> \o B(Odd[k]) \o <<62>>]
HtmlOff == [k \in 1..4 |-> <<60, 47>> \o B(Odd[k]) \o <<62>>]
AssOn == [k \in 1..4 |-> B(Odd[k]) \o <<49>>]
AssOff == [k \in 1..4 |-> B(Odd[k]) \o <<48>>]
MarkOf(t, on, off) == LET S == {k \in 1..4 : t = on[k] \/ t = off[k]} IN
                      IF S = {} THEN <<>> ELSE LET k == CHOOSE x \in S : TRUE IN <<Switch(k, t = on[k])>>
IsMark(x) == x >= 1000
Only(c, ms) == SelectSeq(c, LAMBDA x : ~IsMark(x) \/ x \in ms)
Basic == {Switch(k, b) : k \in 1..3, b \in BOOLEAN}
AllMarks == {Switch(k, b) : k \in 1..4, b \in BOOLEAN}
\* white space at the edges of a line shows nothing
IsInk(c, i) == ~IsMark(c[i]) /\ c[i] \notin {9, 10, 11, 12, 13, 32} /\ ~(c[i] = 194 /\ i < Len(c) /\ c[i + 1] = 160) /\ ~(c[i] = 160 /\ i > 1 /\ c[i - 1] = 194)
Inner(c) == LET S == {i \in 1..Len(c) : IsInk(c, i)} IN
  IF S = {} THEN SelectSeq(c, IsMark)
  ELSE LET a == CHOOSE i \in S : \A j \in S : i <= j  z == CHOOSE i \in S : \A j \in S : i >= j IN
       SelectSeq(SubSeq(c, 1, a - 1), IsMark) \o SubSeq(c, a, z) \o SelectSeq(From(c, z + 1), IsMark)
\* the lines of c that show something, with the switches in ms
Seen(ls, ms) == SelectSeq(TLCEval([k \in 1..Len(ls) |-> Inner(Only(ls[k], ms))]), LAMBDA ln : ln # <<>>)

\* --- text with HTML-like tags: of a SubRip or WebVTT cue
Amp == 38
Names == <<B("&amp;"), B("&lt;"), B("&gt;"), B("&nbsp;")>>
Chars == <<<<38>>, <<60>>, <<62>>, <<194, 160>>>>
RECURSIVE HtmlFrom(_, _, _, _)
HtmlFrom(t, vtt, i, acc) ==
  IF i > Len(t) THEN acc
  ELSE IF t[i] = 60 /\ i < Len(t) /\ (IsAlpha(t[i + 1]) \/ t[i + 1] = 47 \/ (vtt /\ IsDigit(t[i + 1]))) /\ Find(t, 62, i) # 0
  THEN LET e == Find(t, 62, i) IN HtmlFrom(t, vtt, e + 1, acc \o MarkOf(SubSeq(t, i, e), HtmlMarks, HtmlOff))
  ELSE IF vtt /\ t[i] = Amp /\ \E k \in 1..4 : StartsWith(From(t, i), Names[k])
  THEN LET k == CHOOSE x \in 1..4 : StartsWith(From(t, i), Names[x]) IN HtmlFrom(t, vtt, i + Len(Names[k]), acc \o Chars[k])
  ELSE HtmlFrom(t, vtt, i + 1, Append(acc, t[i]))
Html(t, vtt) == TLCEval(HtmlFrom(t, vtt, 1, <<>>))

\* --- the text of an event: its lines. Override blocks show nothing, drawings have no text
PLevel(t) == IF t = <<112>> THEN <<FALSE>> ELSE IF Len(t) > 1 /\ t[1] = 112 /\ AllDigits(Tail(t)) THEN <<Dec(Tail(t)) > 0>> ELSE <<>>
RECURSIVE Tags(_, _)
Tags(ts, z) ==
  IF ts = <<>> THEN z
  ELSE LET t == Trim(Head(ts)) IN
       Tags(Tail(ts), IF PLevel(t) # <<>> THEN [z EXCEPT !.draw = PLevel(t)[1]] ELSE [z EXCEPT !.line = @ \o MarkOf(t, AssOn, AssOff)])
RECURSIVE AssFrom(_, _, _)
AssFrom(t, i, z) ==
  IF i > Len(t) THEN Append(z.lines, z.line)
  ELSE IF t[i] = 123 /\ Find(t, 125, i) # 0
  THEN LET e == Find(t, 125, i) IN AssFrom(t, e + 1, Tags(Tail(Split(SubSeq(t, i + 1, e - 1), 92)), z))
  ELSE IF t[i] = 92 /\ i < Len(t) /\ t[i + 1] \in {78, 110}
  THEN AssFrom(t, i + 2, IF z.draw THEN z ELSE [z EXCEPT !.lines = Append(@, z.line), !.line = <<>>])
  ELSE IF t[i] = 92 /\ i < Len(t) /\ t[i + 1] = 104
  THEN AssFrom(t, i + 2, IF z.draw THEN z ELSE [z EXCEPT !.line = @ \o <<194, 160>>])
  ELSE AssFrom(t, i + 1, IF z.draw THEN z ELSE [z EXCEPT !.line = Append(@, t[i])])
AssText(t) == TLCEval(AssFrom(t, 1, [lines |-> <<>>, line |-> <<>>, draw |-> FALSE]))

\* --- times, <<hours, milliseconds>>
Numbers(ps) == \A k \in 1..Len(ps) : AllDigits(ps[k])
ClockOf(t, sep) ==
  LET ps == Split(t, 58)  n == Len(ps) IN
  IF n \notin {2, 3} THEN <<>>
  ELSE LET s == Split(ps[n], sep) IN
       IF Len(s) # 2 \/ ~Numbers(SubSeq(ps, 1, n - 1) \o s) \/ Len(s[2]) # 3 \/ (n = 2 /\ sep = 44) \/ (n = 2 /\ Len(ps[1]) # 2) THEN <<>>
       ELSE IF Dec(ps[n - 1]) > 59 \/ Dec(s[1]) > 59 \/ Len(ps[n - 1]) # 2 \/ Len(s[1]) # 2 THEN <<>>
       ELSE <<IF n = 3 THEN Dec(ps[1]) ELSE 0, (Dec(ps[n - 1]) * 60000) + (Dec(s[1]) * 1000) + Dec(s[2])>>
ToCs(v) == <<v[1], v[2] \div 10>>
OfCs(v) == <<v[1], v[2] * 10>>

\* --- files: blocks of lines between blank lines
FileLines(t) == LET x == IF StartsWith(t, BOM) THEN Drop(t, 3) ELSE t
                    ls == Split(x, NL) IN TLCEval([k \in 1..Len(ls) |-> StripCR(ls[k])])
RECURSIVE BlocksFrom(_, _, _)
BlocksFrom(ls, cur, acc) ==
  IF ls = <<>> THEN (IF cur = <<>> THEN acc ELSE Append(acc, cur))
  ELSE IF IsBlank(Head(ls)) THEN BlocksFrom(Tail(ls), <<>>, IF cur = <<>> THEN acc ELSE Append(acc, cur))
  ELSE BlocksFrom(Tail(ls), Append(cur, Head(ls)), acc)
Blocks(t) == BlocksFrom(FileLines(t), <<>>, <<>>)
Arrow == B("-->")
Word(t) == LET x == Trim(t)  S == {i \in 1..Len(x) : x[i] \in {32, 9}} IN IF S = {} THEN x ELSE SubSeq(x, 1, (CHOOSE i \in S : \A j \in S : i <= j) - 1)
\* the times of a timing line
Timing(ln, sep) == LET k == FindSub(ln, Arrow, 1) IN
  IF k = 0 THEN <<>>
  ELSE LET a == ClockOf(Trim(SubSeq(ln, 1, k - 1)), sep)  b == ClockOf(Word(From(ln, k + 3)), sep) IN IF a = <<>> \/ b = <<>> THEN <<>> ELSE <<a, b>>
CueOf(b, at, vtt) == LET tm == Timing(b[at], IF vtt THEN 46 ELSE 44) IN
  [from |-> tm[1], to |-> tm[2], no |-> IF at = 2 THEN b[1] ELSE <<>>, text |-> [k \in 1..(Len(b) - at) |-> Html(b[at + k], vtt)]]
\* where the timing line of a block is: 0 when the block is no cue
TimingAt(b, vtt) ==
  IF ~vtt THEN (IF Len(b) >= 2 /\ AllDigits(Trim(b[1])) /\ Timing(b[2], 44) # <<>> THEN 2 ELSE 0)
  ELSE IF Contains(b[1], Arrow) THEN (IF Timing(b[1], 46) # <<>> THEN 1 ELSE 0)
  ELSE IF Len(b) >= 2 /\ Timing(b[2], 46) # <<>> THEN 2 ELSE 0
RECURSIVE CuesOf(_, _)
CuesOf(bs, vtt) == IF bs = <<>> THEN <<>>
  ELSE (LET at == TimingAt(Head(bs), vtt) IN IF at = 0 THEN <<>> ELSE <<CueOf(Head(bs), at, vtt)>>) \o CuesOf(Tail(bs), vtt)
Cues(t, vtt) == TLCEval(CuesOf(Blocks(t), vtt))
IsVtt(t) == StartsWith(IF StartsWith(t, BOM) THEN Drop(t, 3) ELSE t, B("WEBVTT"))

\* --- the dialogues of a script, over all its sections
FieldNo(n) == CHOOSE i \in 1..Len(EventNames) : EventNames[i] = B(n)
RECURSIVE EventsIn(_)
EventsIn(secs) == IF secs = <<>> THEN <<>> ELSE (IF Head(secs).k = "events" THEN Head(secs).items ELSE <<>>) \o EventsIn(Tail(secs))
Dialogues(t) ==
  LET es == SelectSeq(EventsIn(Parse(t).secs), LAMBDA e : e.ty = "Dialogue") IN
  TLCEval([k \in 1..Len(es) |-> [from |-> C!ParseTime(es[k].f[FieldNo("Start")]), to |-> C!ParseTime(es[k].f[FieldNo("End")]),
                                 style |-> es[k].f[FieldNo("Style")], raw |-> es[k].f[FieldNo("Text")]]])
StyleNamed(t, n) == \E i \in 1..Len(Parse(t).secs) : Parse(t).secs[i].k = "styles" /\ \E j \in 1..Len(Parse(t).secs[i].items) : Parse(t).secs[i].items[j].f[1] = n

\* --- what a conversion owes. Switches in ms are kept
RECURSIVE Glue(_)
Glue(ls) == IF ls = <<>> THEN <<>> ELSE IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o <<NL>> \o Glue(Tail(ls))
\* a cue becomes a dialogue at the same times, to a hundredth
Imported(c, ms) == [from |-> ToCs(c.from), to |-> ToCs(c.to), text |-> Seen(AssText(Join(Seen(c.text, ms), <<92, 78>>)), ms)]
AsDialogue(d, ms) == [from |-> d.from, to |-> d.to, text |-> Seen(AssText(d.raw), ms)]
\* a dialogue becomes a cue of its lines
Exported(d, ms) == [from |-> OfCs(d.from), to |-> OfCs(d.to), text |-> Seen(AssText(d.raw), ms)]
AsCue(c) == [from |-> c.from, to |-> c.to, text |-> Seen(c.text, AllMarks)]
\* of the ones that show something
Showing(xs) == SelectSeq(xs, LAMBDA x : x.text # <<>>)
Plain(ds) == SQ!FoldLeft(LAMBDA a, d : a \o Glue([k \in 1..Len(AssText(d.raw)) |-> Only(AssText(d.raw)[k], {})]) \o <<NL>>, <<>>, ds)
RECURSIVE Hard(_, _)
Hard(t, i) == IF i > Len(t) THEN <<>> ELSE IF t[i] = 92 /\ i < Len(t) /\ t[i + 1] = 78 THEN <<NL>> \o Hard(t, i + 2) ELSE <<t[i]>> \o Hard(t, i + 1)
Kept(via, fmt) == IF via = "formats" /\ fmt = "srt" THEN AllMarks ELSE Basic

\* --- files that mean given cues
Pad3(n) == IF n < 10 THEN <<48, 48, 48 + n>> ELSE IF n < 100 THEN <<48>> \o Digits(n) ELSE Digits(n)
Clock(v, sep) == Pad2(v[1]) \o <<58>> \o Pad2(v[2] \div 60000) \o <<58>> \o Pad2((v[2] \div 1000) % 60) \o <<sep>> \o Pad3(v[2] % 1000)
Esc(x) == IF x = 38 THEN Names[1] ELSE IF x = 60 THEN Names[2] ELSE IF x = 62 THEN Names[3] ELSE <<x>>
MarkNo(x) == (x - 1000) \div 2
Spell(c, on, off, f(_)) == SQ!FoldLeft(LAMBDA a, x : a \o (IF IsMark(x) THEN (IF x % 2 = 0 THEN on[MarkNo(x)] ELSE off[MarkNo(x)]) ELSE f(x)), <<>>, c)
Same(x) == <<x>>
WriteCue(c, k, vtt) ==
  Digits(k) \o <<NL>> \o Clock(c.from, IF vtt THEN 46 ELSE 44) \o B(" --> ") \o Clock(c.to, IF vtt THEN 46 ELSE 44) \o <<NL>>
  \o SQ!FoldLeft(LAMBDA a, ln : a \o (IF vtt THEN Spell(ln, HtmlMarks, HtmlOff, Esc) ELSE Spell(ln, HtmlMarks, HtmlOff, Same)) \o <<NL>>, <<>>, c.text) \o <<NL>>
RECURSIVE WriteCues(_, _, _)
WriteCues(cs, k, vtt) == IF cs = <<>> THEN <<>> ELSE WriteCue(Head(cs), k, vtt) \o WriteCues(Tail(cs), k + 1, vtt)
WriteFile(cs, vtt) == (IF vtt THEN B("WEBVTT") \o <<NL, NL>> ELSE <<>>) \o WriteCues(cs, 1, vtt)
BlockOn == [k \in 1..4 |-> <<123, 92>> \o AssOn[k] \o <<125>>]
BlockOff == [k \in 1..4 |-> <<123, 92>> \o AssOff[k] \o <<125>>]
AssLine(c) == B("Dialogue: 0,") \o C!FormatTime(ToCs(c.from)) \o <<44>> \o C!FormatTime(ToCs(c.to)) \o B(",Default,,0,0,0,,")
              \o Join([k \in 1..Len(c.text) |-> Spell(c.text[k], BlockOn, BlockOff, Same)], <<92, 78>>) \o <<NL>>
WriteScript(cs) == B("[Script Info]") \o <<NL, NL>> \o B("[Events]") \o <<NL>>
  \o B("Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text") \o <<NL>> \o SQ!FoldLeft(LAMBDA a, c : a \o AssLine(c), <<>>, cs)
=============================================================================
