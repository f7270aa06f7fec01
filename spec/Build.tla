------------------------------- MODULE Build --------------------------------
(* Lines built from chosen values, and events edited through a builder.  A   *)
(* builder is a sequence of settings <<field, value>>, the last one of a     *)
(* field counting; a layout is the list of fields of a line.  A built line   *)
(* holds, field for field of its layout, the value set or the default.       *)
EXTENDS EvCmd

NName == B("Name")
NActor == B("Actor")
Known(names, x) == \E i \in 1..Len(names) : names[i] = x
EventOnly == EventNames \o <<NActor, NMarginT, NMarginB>>
EventLayout(how, fmt) == IF how = "format" THEN fmt ELSE IF how = "ssa" THEN <<B("Marked")>> \o Tail(EventNames) ELSE EventNames
EventDefault == (B("Layer") :> B("0")) @@ (B("Start") :> B("0:00:00.00")) @@ (B("End") :> B("0:00:05.00")) @@ (B("Style") :> B("Default"))
  @@ (B("MarginL") :> B("0")) @@ (B("MarginR") :> B("0")) @@ (B("MarginV") :> B("0")) @@ (NMarginT :> B("0")) @@ (NMarginB :> B("0"))
  @@ (B("Marked") :> B("Marked=0"))
Spelled(names, x) == LET S == {i \in 1..Len(names) : SameNoCase(names[i], x)} IN IF S = {} THEN <<>> ELSE names[CHOOSE i \in S : TRUE]
\* the speaker's column goes by two names
Own(f) == IF f = NActor THEN NName ELSE f
SetIn(sets, f) == LET S == {i \in 1..Len(sets) : B(sets[i].f) = Own(f)} IN IF S = {} THEN <<>> ELSE <<sets[CHOOSE i \in S : \A j \in S : j <= i].v>>
Or(opt, default) == IF opt = <<>> THEN default ELSE opt[1]
Lookup(fun, f) == IF f \in DOMAIN fun THEN fun[f] ELSE <<>>
EventValue(sets, f) == Or(SetIn(sets, f), Lookup(EventDefault, Own(f)))
EventBuilds(how, fmt) == how # "format" \/ (fmt # <<>> /\ \A i \in 1..Len(fmt) : Spelled(EventOnly, fmt[i]) # <<>>)
EventValues(how, fmt, sets) == LET ly == EventLayout(how, fmt)
                               IN [i \in 1..Len(ly) |-> EventValue(sets, IF how = "format" THEN Spelled(EventOnly, ly[i]) ELSE ly[i])]
TypeOfNew(ty) == IF ty = "comment" THEN "Comment" ELSE "Dialogue"

Tertiary == B("TertiaryColour")
NAlpha == B("AlphaLevel")
StyleOnly == StyleNames \o <<Tertiary, NAlpha, NMarginT, NMarginB, NRelativeTo, B("Strikeout")>>
StyleOwn(f) == IF f = Tertiary THEN B("OutlineColour") ELSE IF f = B("Strikeout") THEN B("StrikeOut") ELSE f
SsaStyle == << B("Name"), B("Fontname"), B("Fontsize"), B("PrimaryColour"), B("SecondaryColour"), Tertiary, B("BackColour"), B("Bold"), B("Italic"),
  B("BorderStyle"), B("Outline"), B("Shadow"), B("Alignment"), B("MarginL"), B("MarginR"), B("MarginV"), NAlpha, B("Encoding") >>
ExtStyle == SubSeq(StyleNames, 1, 22) \o <<NMarginT, NMarginB, B("Encoding"), NRelativeTo>>
StyleLayout(how, fmt) == CASE how = "format" -> fmt [] how = "ssa" -> SsaStyle [] how = "ext" -> ExtStyle [] OTHER -> StyleNames
StyleDefault == (B("Name") :> B("NewStyle")) @@ (B("Fontname") :> B("Arial")) @@ (B("Fontsize") :> B("20")) @@ (B("PrimaryColour") :> B("&Hffffff"))
  @@ (B("SecondaryColour") :> B("&Hff0000")) @@ (B("OutlineColour") :> B("&H0")) @@ (B("BackColour") :> B("&H0")) @@ (B("ScaleX") :> B("100"))
  @@ (B("ScaleY") :> B("100")) @@ (B("BorderStyle") :> B("1")) @@ (B("Outline") :> B("2")) @@ (B("Alignment") :> B("2")) @@ (B("MarginL") :> B("10"))
  @@ (B("MarginR") :> B("10")) @@ (B("MarginV") :> B("10")) @@ (B("Encoding") :> B("1"))
StyleValue(sets, f) == LET g == StyleOwn(f) IN
  Or(LET S == {i \in 1..Len(sets) : B(sets[i].f) = g} IN IF S = {} THEN <<>> ELSE <<sets[CHOOSE i \in S : \A j \in S : j <= i].v>>,
     IF g \in DOMAIN StyleDefault THEN StyleDefault[g] ELSE B("0"))
StyleBuilds(how, fmt) == how # "format" \/ (fmt # <<>> /\ \A i \in 1..Len(fmt) : Known(StyleOnly, fmt[i]))
StyleValues(how, fmt, sets) == LET ly == StyleLayout(how, fmt) IN [i \in 1..Len(ly) |-> StyleValue(sets, ly[i])]

\* The values of a line, told apart as the layout says.
HoldsText(ly) == \E i \in 1..Len(ly) : SameNoCase(ly[i], NText)
ValuesOf(line, prefix, ly) == LET ps == SplitN(Trim(Drop(line, Len(prefix))), COMMA, IF HoldsText(ly) THEN Len(ly) ELSE 99)
                              IN IF StartsWith(line, prefix) /\ ~Has(line, NL) THEN [i \in 1..Len(ps) |-> Trim(ps[i])] ELSE <<>>
Trimmed(vs) == [i \in 1..Len(vs) |-> Trim(vs[i])]
\* The same line read in a script with that layout: one item, no issue.
ReadIn(head, ly, line) == Parse(head \o <<NL>> \o PFormat \o <<32>> \o Join(ly, <<44, 32>>) \o <<NL>> \o line \o <<NL>>)
ByName(names, ly, vs) == [i \in 1..Len(names) |-> LET k == Pos(ly, names[i]) IN IF k = 0 THEN <<>> ELSE Trim(vs[k])]
OptBy(name, ly, vs) == LET k == Pos(ly, name) IN IF k = 0 THEN <<>> ELSE <<Trim(vs[k])>>
ReadsAs(p, names, ly, vs) == /\ p.iss = <<>> /\ Len(p.secs) = 1 /\ Len(p.secs[1].items) = 1
                             /\ LET x == p.secs[1].items[1] IN
                                x.f = ByName(names, ly, vs) /\ x.mt = OptBy(NMarginT, ly, vs) /\ x.mb = OptBy(NMarginB, ly, vs)
EventReads(ty, line, ly, vs) == LET p == ReadIn(B("[Events]"), ly, line) IN ReadsAs(p, EventNames, ly, vs) /\ p.secs[1].items[1].ty = ty
StyleReads(line, ly, vs) == LET p == ReadIn(B("[V4+ Styles]"), ly, line)
                            IN ReadsAs(p, StyleNames, ly, vs) /\ p.secs[1].items[1].rt = OptBy(NRelativeTo, ly, vs) /\ p.secs[1].items[1].parent = <<>>

\* --- an event edited through a builder ------------------------------------------
\* The builder starts from the event ("keep") or from nothing; only what differs is rewritten.
CurrentValue(raw, ev, f) == LET g == IF Pos(ev.fmt, Own(f)) = 0 THEN f ELSE Own(f)  r == FieldAt(raw, ev, g) IN ValueAt(raw, r)
NewValue(raw, ev, from, sets, f) == Or(SetIn(sets, f), IF from = "keep" THEN CurrentValue(raw, ev, f) ELSE Lookup(EventDefault, Own(f)))
RECURSIVE Changes(_, _, _, _, _)
Changes(raw, ev, from, sets, i) ==
  IF i > Len(EventOnly) THEN <<>>
  ELSE LET f == EventOnly[i]  r == FieldAt(raw, ev, f)  v == NewValue(raw, ev, from, sets, f)
       IN (IF r = NoRange \/ v = CurrentValue(raw, ev, f) THEN <<>> ELSE << <<r[1], r[2], v>> >>) \o Changes(raw, ev, from, sets, i + 1)
NewType(ev, from) == IF from \in {"keep", "new"} THEN ev.ty ELSE TypeOfNew(from)
BuiltRaw(raw, ev, from, sets) ==
  LET x == Splice(raw, Changes(raw, ev, from, sets, 1))  a == TypeAt(raw)
  IN SubSeq(x, 1, a - 1) \o B(NewType(ev, from)) \o From(x, a + Len(ev.ty))
BuiltText(t, ev, from, sets) == SubSeq(t, 1, ev.span.s) \o BuiltRaw(Raw(t, ev), ev, from, sets) \o From(t, ev.span.e + 1)
=============================================================================
