------------------------------ MODULE AssParse ------------------------------
(* The ASS reader as a line automaton.  A state holds the section being read, *)
(* everything read so far and the issues raised; StepLine consumes one line.  *)
(*                                                                            *)
(* mode: "top"   before any header      "skip"  recovering, until a header    *)
(*       "info" "styles" "events"       inside a section                      *)
(*       "fonts" "graphics"             between the entries of that section   *)
(*       "fontdata" "graphicdata"       inside an entry                       *)
EXTENDS Bytes

OB == 91  \* [
CB == 93  \* ]
COLON == 58
COMMA == 44
STAR == 42

\* Names as bytes, evaluated once.
StyleNames == << B("Name"), B("Fontname"), B("Fontsize"), B("PrimaryColour"), B("SecondaryColour"), B("OutlineColour"),
  B("BackColour"), B("Bold"), B("Italic"), B("Underline"), B("StrikeOut"), B("ScaleX"), B("ScaleY"), B("Spacing"),
  B("Angle"), B("BorderStyle"), B("Outline"), B("Shadow"), B("Alignment"), B("MarginL"), B("MarginR"), B("MarginV"),
  B("Encoding") >>
EventNames == << B("Layer"), B("Start"), B("End"), B("Style"), B("Name"), B("MarginL"), B("MarginR"), B("MarginV"),
  B("Effect"), B("Text") >>
NText == B("Text")
NMarginT == B("MarginT")
NMarginB == B("MarginB")
NRelativeTo == B("RelativeTo")
HScriptInfo == B("Script Info")
HStyles == { B("V4+ Styles"), B("V4 Styles"), B("V4++ Styles") }
HEvents == B("Events")
HFonts == B("Fonts")
HGraphics == B("Graphics")
PFormat == B("Format:")
PStyle == B("Style:")
EventPrefixes == << B("Dialogue:"), B("Comment:"), B("Picture:"), B("Sound:"), B("Movie:"), B("Command:") >>
EventTypes == << "Dialogue", "Comment", "Picture", "Sound", "Movie", "Command" >>
KScriptType == B("ScriptType")
KFont == B("fontname")
KGraphic == B("filename")
VOld == B("v4.00")
VAss == B("v4.00+")
VExt == { B("v4.00++"), B("v4.00+ extended") }
BOM == <<239, 187, 191>>

SectionKind(name) == IF name = HScriptInfo THEN "info" ELSE IF name \in HStyles THEN "styles"
                     ELSE IF name = HEvents THEN "events" ELSE IF name = HFonts THEN "fonts"
                     ELSE IF name = HGraphics THEN "graphics" ELSE "unknown"

Empty0(ver) == [mode |-> "top", secs |-> <<>>, sfmt |-> <<>>, efmt |-> <<>>, ver |-> ver, iss |-> <<>>]
Start == Empty0("AssV4")
\* sfmt/efmt: <<>> = no format, <<f>> = format f.

Issue(p, sev, no) == [p EXCEPT !.iss = Append(@, [sev |-> sev, line |-> no])]

\* Replace the last section's field.
WithLast(p, f, v) == [p EXCEPT !.secs[Len(p.secs)][f] = v]
LastSec(p) == p.secs[Len(p.secs)]
AddItem(p, x) == WithLast(p, "items", Append(LastSec(p).items, x))
LastItem(p) == LET it == LastSec(p).items IN it[Len(it)]
SetLastItem(p, x) == LET it == LastSec(p).items IN WithLast(p, "items", [it EXCEPT ![Len(it)] = x])

\* A section ends: its format becomes the document's; a style section with styles always has one.
Close(p, off) ==
  CASE p.mode = "styles" -> [p EXCEPT !.sfmt = IF LastSec(p).fmt = <<>> /\ LastSec(p).items # <<>> THEN <<StyleNames>>
                                               ELSE LastSec(p).fmt]
    [] p.mode = "events" -> [p EXCEPT !.efmt = LastSec(p).fmt]
    [] p.mode \in {"fontdata", "graphicdata"} -> SetLastItem(p, [LastItem(p) EXCEPT !.e = off])
    [] OTHER -> p

IsHeaderish(tr) == tr # <<>> /\ tr[1] = OB
HeaderName(tr) == Trim(SubSeq(tr, 2, Find(tr, CB, 1) - 1))

\* A line that starts with '[' while not inside any section.
Header(p, no, tr) ==
  IF ~Has(tr, CB) THEN [Issue(p, "Error", no) EXCEPT !.mode = "skip"]
  ELSE LET k == SectionKind(HeaderName(tr)) IN
       IF k = "unknown" THEN [Issue(p, "Warning", no) EXCEPT !.mode = "skip"]
       ELSE [p EXCEPT !.mode = k,
             !.secs = Append(@, [k |-> k, items |-> <<>>, fmt |-> <<>>, mixed |-> FALSE, line |-> no])]

\* First byte of a line that is not blank, tab or carriage return (1-based); section comments are found here.
RECURSIVE SkipSp(_, _)
SkipSp(t, i) == IF i > Len(t) \/ t[i] \notin {32, 9, 13} THEN i ELSE SkipSp(t, i + 1)
CommentIn(t, marks) == LET i == SkipSp(t, 1) IN i <= Len(t) /\ t[i] \in marks
LineSpan(ln, no) == LET i == SkipSp(ln.b, 1) IN [s |-> ln.off + i - 1, e |-> ln.off + Len(ln.b), line |-> no, col |-> i]

\* Field lookup by name, ignoring case; <<>> when the format does not name it.
Pos(fmt, name) == LET S == {i \in 1..Len(fmt) : SameNoCase(fmt[i], name)}
                  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Field(fmt, parts, name) == LET i == Pos(fmt, name) IN IF i = 0 \/ i > Len(parts) THEN <<>> ELSE Trim(parts[i])
OptField(fmt, parts, name) == IF Pos(fmt, name) = 0 THEN <<>> ELSE <<Field(fmt, parts, name)>>

\* A Format line applies to the lines after it; a section whose items follow different ones is "mixed".
SetFormat(p, f, default) ==
  LET s == LastSec(p)  old == IF s.fmt = <<>> THEN default ELSE s.fmt[1]
  IN WithLast(WithLast(p, "fmt", <<f>>), "mixed", s.mixed \/ (s.items # <<>> /\ old # f))
FormatOf(tr) == LET ps == Split(Drop(tr, Len(PFormat)), COMMA) IN [i \in 1..Len(ps) |-> Trim(ps[i])]

\* --- [Script Info] -----------------------------------------------------------
Version(v, old) == IF v = VOld THEN "SsaV4" ELSE IF v = VAss THEN "AssV4" ELSE IF v \in VExt THEN "AssV4Plus" ELSE old
InfoLine(p, ln, no, tr) ==
  LET c == Find(tr, COLON, 1) IN
  IF c = 0 THEN Issue(p, "Warning", no)
  ELSE LET key == Trim(SubSeq(tr, 1, c - 1))  val == Trim(From(tr, c + 1))
           q == IF key = KScriptType THEN [p EXCEPT !.ver = Version(val, @)] ELSE p
       IN AddItem(q, [key |-> key, val |-> val, no |-> no])

\* --- [V4+ Styles] ------------------------------------------------------------
StyleRec(fmt, parts, parent, span) ==
  [f |-> [i \in 1..Len(StyleNames) |-> Field(fmt, parts, StyleNames[i])], parent |-> parent,
   mt |-> OptField(fmt, parts, NMarginT), mb |-> OptField(fmt, parts, NMarginB),
   rt |-> OptField(fmt, parts, NRelativeTo), span |-> span, fmt |-> fmt]
RECURSIVE DropStars(_)
DropStars(t) == IF t # <<>> /\ t[1] = STAR THEN DropStars(Tail(t)) ELSE t
StyleLine(p, ln, no, tr) ==
  LET data  == Trim(Drop(tr, Len(PStyle)))
      c     == Find(data, COMMA, 1)
      inh   == data # <<>> /\ data[1] = STAR /\ c # 0
      rest  == IF inh THEN From(data, c + 1) ELSE data
      par   == IF inh THEN <<Trim(DropStars(SubSeq(data, 1, c - 1)))>> ELSE <<>>
      fmt   == IF LastSec(p).fmt = <<>> THEN StyleNames ELSE LastSec(p).fmt[1]
      parts == Split(rest, COMMA)
      q     == IF Len(parts) # Len(fmt) THEN Issue(p, "Warning", no) ELSE p
  IN IF Len(parts) < Len(fmt) THEN q ELSE AddItem(q, StyleRec(fmt, parts, par, LineSpan(ln, no)))

\* --- [Events] ----------------------------------------------------------------
EventRec(fmt, parts, ty, span) ==
  [ty |-> ty, f |-> [i \in 1..Len(EventNames) |-> Field(fmt, parts, EventNames[i])],
   mt |-> OptField(fmt, parts, NMarginT), mb |-> OptField(fmt, parts, NMarginB), span |-> span, fmt |-> fmt]
EventLine(p, ln, no, tr) ==
  LET K == {i \in 1..6 : StartsWith(tr, EventPrefixes[i])} IN
  IF K = {} THEN p
  ELSE LET k     == CHOOSE i \in K : TRUE
           data  == Trim(Drop(tr, Len(EventPrefixes[k])))
           fmt   == IF LastSec(p).fmt = <<>> THEN EventNames ELSE LastSec(p).fmt[1]
           \* a text field takes the rest of the line, commas included
           parts == SplitN(data, COMMA, IF Pos(fmt, NText) # 0 THEN Len(fmt) ELSE 10)
       IN IF Len(parts) < Len(fmt) THEN Issue(p, "Warning", no)
          ELSE AddItem(p, EventRec(fmt, parts, EventTypes[k], LineSpan(ln, no)))

\* --- [Fonts] and [Graphics] --------------------------------------------------
EntryKey(mode) == IF mode \in {"fonts", "fontdata"} THEN KFont ELSE KGraphic
IsEntry(b, key) == LET c == Find(b, COLON, 1) IN c # 0 /\ Trim(SubSeq(b, 1, c - 1)) = key
EntryName(b) == Trim(From(b, Find(b, COLON, 1) + 1))
StripCR(b) == IF b # <<>> /\ b[Len(b)] = 13 THEN SubSeq(b, 1, Len(b) - 1) ELSE b
\* A complete UU line: a length character and exactly the characters that length needs.
UULine(b0) ==
  LET b == StripCR(b0) IN
  /\ b # <<>>
  /\ LET n == b[1] - 32  full == ((n + 2) \div 3) * 4 IN
     /\ n >= 1 /\ n <= 45
     /\ (Len(b) - 1 = full \/ (n % 3 = 1 /\ Len(b) - 1 = full - 1))
     /\ \A i \in 2..Len(b) : b[i] >= 32 /\ b[i] <= 96
EntryLine(p, ln, no) ==
  IF IsEntry(ln.b, EntryKey(p.mode))
  THEN [AddItem(p, [name |-> EntryName(ln.b), data |-> <<>>, s |-> ln.off + SkipSp(ln.b, 1) - 1, e |-> 0,
                    line |-> no, col |-> SkipSp(ln.b, 1)])
        EXCEPT !.mode = IF p.mode = "fonts" THEN "fontdata" ELSE "graphicdata"]
  ELSE p
Between(p, ln, no, tr) ==
  IF tr = <<>> \/ CommentIn(ln.b, {59}) \/ StartsWith(From(ln.b, SkipSp(ln.b, 1)), <<33, 58>>) THEN p
  ELSE EntryLine(p, ln, no)
EndEntry(p, off) == [Close(p, off) EXCEPT !.mode = IF p.mode = "fontdata" THEN "fonts" ELSE "graphics"]
DataLine(p, ln, no, tr) ==
  IF tr = <<>> THEN EndEntry(p, ln.off)
  ELSE IF IsEntry(ln.b, EntryKey(p.mode)) THEN EntryLine(EndEntry(p, ln.off), ln, no)
  ELSE LET add == SetLastItem(p, [LastItem(p) EXCEPT !.data = Append(@, ln.b)]) IN
       IF UULine(ln.b) THEN add
       ELSE IF tr[1] \in {59, 33} THEN p
       ELSE IF tr = <<35>> \/ StartsWith(tr, <<35, 32>>) THEN Between(EndEntry(p, ln.off), ln, no, tr)
       ELSE add

\* --- one line ----------------------------------------------------------------
InSection(p) == p.mode \notin {"top", "skip"}
StepLine(p, ln, no) ==
  LET tr == Trim(ln.b) IN
  IF InSection(p) /\ IsHeaderish(tr) THEN Header(Close(p, IF p.mode \in {"fontdata", "graphicdata"} THEN ln.off ELSE 0), no, tr)
  ELSE CASE p.mode = "top" ->
              IF tr = <<>> \/ tr[1] = 59 \/ StartsWith(tr, <<33, 58>>) THEN p
              ELSE IF IsHeaderish(tr) THEN Header(p, no, tr)
              ELSE [Issue(p, "Error", no) EXCEPT !.mode = "skip"]
         [] p.mode = "skip" -> IF IsHeaderish(tr) /\ Has(tr, CB) THEN Header(p, no, tr) ELSE p
         [] p.mode = "info" -> IF tr = <<>> \/ CommentIn(ln.b, {59, 35}) THEN p ELSE InfoLine(p, ln, no, tr)
         [] p.mode = "styles" ->
              IF tr = <<>> \/ CommentIn(ln.b, {59, 35}) THEN p
              ELSE IF StartsWith(tr, PFormat) THEN SetFormat(p, FormatOf(tr), StyleNames)
              ELSE IF StartsWith(tr, PStyle) THEN StyleLine(p, ln, no, tr)
              ELSE p
         [] p.mode = "events" ->
              IF tr = <<>> \/ CommentIn(ln.b, {59, 35}) THEN p
              ELSE IF StartsWith(tr, PFormat) THEN SetFormat(p, FormatOf(tr), EventNames)
              ELSE EventLine(p, ln, no, tr)
         [] p.mode \in {"fonts", "graphics"} -> Between(p, ln, no, tr)
         [] OTHER -> DataLine(p, ln, no, tr)

RECURSIVE FoldLines(_, _, _)
FoldLines(p, ls, i) == IF i > Len(ls) THEN p ELSE FoldLines(StepLine(p, ls[i], i), ls, i + 1)

\* A leading byte order mark is not part of the first line.
ParseLines(t) == LET ls == Lines(t) IN
  IF StartsWith(t, BOM) THEN [ls EXCEPT ![1] = [off |-> 3, b |-> Drop(ls[1].b, 3)]] ELSE ls
\* Blank lines before a header or the end of the text belong to nothing; an entry's span ends where they begin.
Parse(t) == LET p == FoldLines(Start, ParseLines(t), 1) IN Close(p, Len(t))

\* --- views -------------------------------------------------------------------
\* What a document says, without where it says it.
ItemData(k, x) == CASE k = "info" -> [key |-> x.key, val |-> x.val]
                    [] k = "styles" -> [f |-> x.f, parent |-> x.parent, mt |-> x.mt, mb |-> x.mb, rt |-> x.rt]
                    [] k = "events" -> [ty |-> x.ty, f |-> x.f, mt |-> x.mt, mb |-> x.mb]
                    [] OTHER -> [name |-> x.name, data |-> x.data]
SecData(s) == [k |-> s.k, items |-> [i \in 1..Len(s.items) |-> ItemData(s.k, s.items[i])]]
DocData(p) == [ver |-> p.ver, sfmt |-> p.sfmt, efmt |-> p.efmt,
               secs |-> [i \in 1..Len(p.secs) |-> SecData(p.secs[i])]]
ItemSpan(k, x) == IF k \in {"styles", "events"} THEN <<x.span.s, x.span.e, x.span.line, x.span.col>>
                  ELSE <<x.s, x.e, x.line, x.col>>
SecSpans(s) == IF s.k = "info" THEN <<>> ELSE [i \in 1..Len(s.items) |-> ItemSpan(s.k, s.items[i])]
DocSpans(p) == [i \in 1..Len(p.secs) |-> SecSpans(p.secs[i])]

\* Extent of a [Script Info] section: from the line after its header, over its fields, up to the next header.
RECURSIVE NextHeader(_, _)
NextHeader(ls, i) == IF i > Len(ls) THEN 0 ELSE IF IsHeaderish(Trim(ls[i].b)) THEN i ELSE NextHeader(ls, i + 1)
InfoFrom(ls, t, s) == IF s.line < Len(ls) THEN ls[s.line + 1].off ELSE Len(t)
InfoTo(ls, t, s) == LET h == NextHeader(ls, s.line + 1)
                    IN IF h = 0 THEN Len(t) ELSE ls[h].off + SkipWs(ls[h].b, 1) - 1
\* (a header that ends the text without a newline has no line after it)
InfoLineNo(ls, t, s) == IF s.line = Len(ls) /\ t[Len(t)] # NL THEN s.line ELSE s.line + 1
InfoLast(ls, t, s) == IF s.items = <<>> THEN InfoFrom(ls, t, s)
                      ELSE LET n == s.items[Len(s.items)].no IN ls[n].off + Len(TrimEnd(ls[n].b))

\* Documents that one field list per kind of section describes completely.
EffFmt(s) == IF s.k = "styles" /\ s.fmt = <<>> /\ s.items # <<>> THEN <<StyleNames>> ELSE s.fmt
Uniform(p) ==
  \A i \in 1..Len(p.secs) :
    LET s == p.secs[i] IN
    /\ ~s.mixed
    /\ (s.k = "styles" => EffFmt(s) = p.sfmt)
    /\ (s.k = "events" => EffFmt(s) = p.efmt)
    /\ (s.k = "info" => \A j \in 1..Len(s.items) : s.items[j].key = <<>> \/ s.items[j].key[1] \notin {59, 35})
    /\ (s.k = "styles" => \A j \in 1..Len(s.items) : LET q == s.items[j].parent IN q = <<>> \/ q[1] = <<>> \/ q[1][1] # STAR)
=============================================================================
