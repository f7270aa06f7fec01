------------------------------- MODULE DocCmd -------------------------------
(* Styles and script information of a document: commands on them, and the     *)
(* helpers that add whole lines.  Styles go by their exact name, fields by     *)
(* their exact key, both as the reader reads them; a command changes the lines *)
(* and fields it names and leaves every other byte alone.                      *)
EXTENDS EvCmd

\* --- places -------------------------------------------------------------------
FirstSec(p, k) == LET S == {i \in 1..Len(p.secs) : p.secs[i].k = k} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
LineEndAt(t, ln) == MinR(ln.off + Len(ln.b) + 1, Len(t))
RECURSIVE FormatNo(_, _)
FormatNo(ls, j) == IF j > Len(ls) THEN 0 ELSE IF IsHeaderish(Trim(ls[j].b)) THEN 0
                   ELSE IF StartsWith(Trim(ls[j].b), PFormat) THEN j ELSE FormatNo(ls, j + 1)
\* New lines of a section go after its first format line, or after its header if it has none.
NewLine(t, p, k, line) ==
  LET ls == ParseLines(t)  i == p.secs[FirstSec(p, k)].line  f == FormatNo(ls, i + 1)
      ln == ls[IF f = 0 THEN i ELSE f]  at == LineEndAt(t, ln) + 1
      open == ln.off + Len(ln.b) = Len(t)
  IN <<at, at, (IF open THEN <<NL>> ELSE <<>>) \o line \o <<NL>>>>
\* The format in force there; <<>> if the section has no format line
FormatThere(t, p, k) == LET ls == ParseLines(t)  f == FormatNo(ls, p.secs[FirstSec(p, k)].line + 1)
                        IN IF f = 0 THEN <<>> ELSE <<FormatOf(Trim(ls[f].b))>>
Glue(fmt) == Join(fmt, B(", "))
StyleSection(line) == <<NL>> \o B("[V4+ Styles]") \o <<NL>> \o B("Format: ") \o Glue(StyleNames) \o <<NL>> \o line \o <<NL>>
EventSection(line) == <<NL>> \o B("[Events]") \o <<NL>> \o B("Format: ") \o Glue(EventNames) \o <<NL>> \o line \o <<NL>>
\* A section of styles goes before the events.
NewStyleSection(t, p, line) ==
  LET e == FirstSec(p, "events")  at == IF e = 0 THEN Len(t) + 1 ELSE ParseLines(t)[p.secs[e].line].off + 1
  IN <<at, at, StyleSection(line)>>

\* --- styles -------------------------------------------------------------------
RECURSIVE ItemsIn(_, _, _)
ItemsIn(secs, k, i) == IF i > Len(secs) THEN <<>> ELSE (IF secs[i].k = k THEN secs[i].items ELSE <<>>) \o ItemsIn(secs, k, i + 1)
StylesOf(p) == ItemsIn(p.secs, "styles", 1)
Named1(p, name) == LET S == StylesOf(p)  K == {i \in 1..Len(S) : S[i].f[1] = name}
                   IN IF K = {} THEN 0 ELSE CHOOSE i \in K : \A j \in K : i <= j
RECURSIVE CommaParts(_, _, _)
CommaParts(raw, i, acc) == LET k == Find(raw, COMMA, i) IN
                           IF k = 0 THEN Append(acc, <<i, Len(raw) + 1>>) ELSE CommaParts(raw, k + 1, Append(acc, <<i, k>>))
StyleField(raw, st, name) ==
  LET ps == CommaParts(raw, Len(PStyle) + 1, <<>>)  i == Pos(st.fmt, name)  k == i + Len(st.parent)
  IN IF i = 0 \/ k > Len(ps) THEN NoRange ELSE TrimRange(raw, ps[k])
NName == B("Name")
NStyle == B("Style")
\* ups: the fields to set, each once, as <<field, bytes>>; a field the style does not have is left out
EditStyle(t, p, name, ups) ==
  LET i == Named1(p, name) IN
  IF i = 0 THEN Fail(t)
  ELSE LET st == StylesOf(p)[i]  raw == Raw(t, st)
           put == [j \in 1..Len(ups) |-> StyleField(raw, st, ups[j][1]) \o <<ups[j][2]>>]
       IN Done(Splice(t, << At(st) \o <<Splice(raw, SelectSeq(put, LAMBDA x : x[1] > 0))>> >>), 1)
DeleteStyle(t, p, name) ==
  LET i == Named1(p, name) IN IF i = 0 THEN Fail(t) ELSE Done(Splice(t, << WholeLine(t, StylesOf(p)[i]) \o << <<>> >> >>), 1)
CloneStyle(t, p, from, to) ==
  LET i == Named1(p, from) IN
  IF i = 0 \/ Named1(p, to) # 0 THEN Fail(t)
  ELSE LET st == StylesOf(p)[i]  raw == Raw(t, st)  r == StyleField(raw, st, NName)
           copy == IF r = NoRange THEN raw ELSE Splice(raw, << r \o <<to>> >>)
       IN Done(Splice(t, << <<st.span.e + 1, st.span.e + 1, <<NL>> \o copy>> >>), 1)
\* Events of style a become events of style b; filter is <<>> or <<bytes the line must hold>>.
ApplyStyle(t, p, a, b, filter) ==
  IF ~HasEvents(p) THEN Fail(t)
  ELSE LET evs == Events(p)
           swap(k) == LET raw == Raw(t, evs[k])  r == FieldAt(raw, evs[k], NStyle) IN
                      IF r # NoRange /\ ValueAt(raw, r) = a /\ (filter = <<>> \/ Contains(raw, filter[1])) THEN << r \o <<b>> >> ELSE <<>>
       IN Rewrite(t, evs, 1..Len(evs), TLCEval([k \in 1..Len(evs) |-> swap(k)]))

\* A new style's line: what the builder was told, else its defaults, in the order of the format.
Built == << <<B("Name"), B("NewStyle")>>, <<B("Fontname"), B("Arial")>>, <<B("Fontsize"), B("20")>>, <<B("PrimaryColour"), B("&Hffffff")>>,
            <<B("SecondaryColour"), B("&Hff0000")>>, <<B("OutlineColour"), B("&H0")>>, <<B("TertiaryColour"), B("&H0")>>, <<B("BackColour"), B("&H0")>>,
            <<B("Bold"), B("0")>>, <<B("Italic"), B("0")>>, <<B("Underline"), B("0")>>, <<B("StrikeOut"), B("0")>>, <<B("Strikeout"), B("0")>>,
            <<B("ScaleX"), B("100")>>, <<B("ScaleY"), B("100")>>, <<B("Spacing"), B("0")>>, <<B("Angle"), B("0")>>, <<B("BorderStyle"), B("1")>>,
            <<B("Outline"), B("2")>>, <<B("Shadow"), B("0")>>, <<B("Alignment"), B("2")>>, <<B("MarginL"), B("10")>>, <<B("MarginR"), B("10")>>,
            <<B("MarginV"), B("10")>>, <<B("MarginT"), B("0")>>, <<B("MarginB"), B("0")>>, <<B("Encoding"), B("1")>>, <<B("AlphaLevel"), B("0")>>,
            <<B("RelativeTo"), B("0")>> >>
ToldAs(f) == IF f = B("TertiaryColour") THEN B("OutlineColour") ELSE IF f = B("Strikeout") THEN B("StrikeOut") ELSE f
Buildable(fmt) == \A i \in 1..Len(fmt) : \E j \in 1..Len(Built) : Built[j][1] = fmt[i]
BuiltField(f, ups) == LET K == {i \in 1..Len(ups) : ups[i][1] = ToldAs(f)} IN
                      IF K # {} THEN ups[CHOOSE i \in K : \A j \in K : j <= i][2] ELSE Built[CHOOSE j \in 1..Len(Built) : Built[j][1] = f][2]
StyleText(fmt, ups) == B("Style: ") \o Join([i \in 1..Len(fmt) |-> BuiltField(fmt[i], ups)], <<COMMA>>)
CreateStyle(t, p, name, ups) ==
  LET told == Append(ups, <<NName, name>>) IN
  IF FirstSec(p, "styles") = 0 THEN Done(Splice(t, << NewStyleSection(t, p, StyleText(StyleNames, told)) >>), 1)
  ELSE LET f == FormatThere(t, p, "styles")  fmt == IF f = <<>> THEN StyleNames ELSE f[1]
       IN IF ~Buildable(fmt) THEN Fail(t) ELSE Done(Splice(t, << NewLine(t, p, "styles", StyleText(fmt, told)) >>), 1)

\* --- whole lines ----------------------------------------------------------------
AddStyle(t, p, line) == Done(Splice(t, << IF FirstSec(p, "styles") = 0 THEN NewStyleSection(t, p, line) ELSE NewLine(t, p, "styles", line) >>), 1)
SetStyle(t, p, name, line) ==
  LET i == Named1(p, name) IN
  IF i = 0 THEN AddStyle(t, p, line)
  ELSE LET st == StylesOf(p)[i]  raw == Raw(t, st)  r == TrimRange(raw, <<1, Len(raw) + 1>>)
       IN Done(Splice(t, << At(st) \o <<Splice(raw, << r \o <<line>> >>)>> >>), 1)
AddEvent(t, p, line) == Done(IF FirstSec(p, "events") = 0 THEN t \o EventSection(line) ELSE Splice(t, << NewLine(t, p, "events", line) >>), 1)
\* The first event whose text holds old has it replaced there.
EditText(t, p, old, new) ==
  LET evs == Events(p)
      place(k) == LET raw == Raw(t, evs[k])  r == FieldAt(raw, evs[k], NText) IN
                  IF r = NoRange THEN 0 ELSE LET j == FindSub(ValueAt(raw, r), old, 1) IN IF j = 0 THEN 0 ELSE evs[k].span.s + r[1] + j - 1
      K == {k \in 1..Len(evs) : place(k) # 0}
  IN IF K = {} THEN Done(t, 0)
     ELSE LET a == place(CHOOSE k \in K : \A j \in K : k <= j) IN Done(Splice(t, << <<a, a + Len(old), new>> >>), 1)

\* --- script information -----------------------------------------------------------
Fields(p) == ItemsIn(p.secs, "info", 1)
Keyed(p, key) == {i \in 1..Len(Fields(p)) : Fields(p)[i].key = key}
FirstOf(K) == CHOOSE i \in K : \A j \in K : i <= j
InfoSet(t, p, key, val) ==
  LET line == key \o B(": ") \o val IN
  IF FirstSec(p, "info") = 0 THEN Fail(t)
  ELSE IF Keyed(p, key) = {} THEN
         Done(Splice(t, << NewLine(t, p, "info", line) >>), 1)
  ELSE LET ln == ParseLines(t)[Fields(p)[FirstOf(Keyed(p, key))].no]  r == TrimRange(ln.b, <<1, Len(ln.b) + 1>>)
       IN Done(Splice(t, << <<ln.off + r[1], ln.off + r[2], line>> >>), 1)
\* every line of the key goes
InfoDelete(t, p, key) ==
  LET ls == ParseLines(t)  F == Fields(p)
      gone == [i \in 1..Len(F) |-> IF F[i].key = key THEN <<ls[F[i].no].off + 1, LineEndAt(t, ls[F[i].no]) + 1, <<>>>> ELSE <<0, 0, <<>>>>]
      rs == SelectSeq(gone, LAMBDA x : x[1] > 0)
  IN IF FirstSec(p, "info") = 0 THEN Fail(t) ELSE Done(Splice(t, rs), Len(rs))
\* <<>> or <<value>>
InfoGet(p, key) == IF Keyed(p, key) = {} THEN <<>> ELSE <<Fields(p)[FirstOf(Keyed(p, key))].val>>
InfoAll(p) == LET F == Fields(p) IN [i \in 1..Len(F) |-> <<F[i].key, F[i].val>>]
KResX == B("PlayResX")
KResY == B("PlayResY")
KWrap == B("WrapStyle")
KScaled == B("ScaledBorderAndShadow")
\* a whole number as <<hours, cs>> pairs count it; Bad when it is none
Number(v) == C!U32(C!Unsigned(v))
Resolution(p) ==
  LET x == InfoGet(p, KResX)  y == InfoGet(p, KResY) IN
  IF x = <<>> \/ y = <<>> THEN [ok |-> TRUE, got |-> <<>>]
  ELSE IF Number(x[1]) = C!Bad \/ Number(y[1]) = C!Bad THEN [ok |-> FALSE, got |-> <<>>]
  ELSE [ok |-> TRUE, got |-> <<Number(x[1]), Number(y[1])>>]
WrapStyle(p) ==
  LET x == InfoGet(p, KWrap) IN
  IF x = <<>> THEN [ok |-> TRUE, got |-> <<>>]
  ELSE IF Number(x[1]) = C!Bad THEN [ok |-> FALSE, got |-> <<>>]
  ELSE IF ~C!Leq(Number(x[1]), <<0, 255>>) THEN [ok |-> FALSE, got |-> <<>>] ELSE [ok |-> TRUE, got |-> <<Number(x[1])>>]
Scaled(p) == LET x == InfoGet(p, KScaled) IN [ok |-> TRUE, got |-> IF x = <<>> THEN <<>> ELSE <<LowerA(x[1]) = B("yes") \/ x[1] = B("1")>>]

Change(t, r) ==
  LET p == Parse(t) IN
  CASE r.op = "create" -> CreateStyle(t, p, r.name, r.ups)
    [] r.op = "edit" -> EditStyle(t, p, r.name, r.ups)
    [] r.op = "delete" -> DeleteStyle(t, p, r.name)
    [] r.op = "clone" -> CloneStyle(t, p, r.name, r.to)
    [] r.op = "apply" -> ApplyStyle(t, p, r.name, r.to, r.filter)
    [] r.op = "addstyle" -> AddStyle(t, p, r.line)
    [] r.op = "setstyle" -> SetStyle(t, p, r.name, r.line)
    [] r.op = "addevent" -> AddEvent(t, p, r.line)
    [] r.op = "text" -> EditText(t, p, r.old, r.new)
    [] r.op = "iset" -> InfoSet(t, p, r.key, r.val)
    [] r.op = "idel" -> InfoDelete(t, p, r.key)
=============================================================================
