------------------------------ MODULE Build_MC -------------------------------
(* Layouts of up to MaxLen fields with few settings: a line written as        *)
(* plainly as possible has the values it should and reads as it should; and   *)
(* an edited event differs from what it was in what was set and nothing else. *)
EXTENDS Build, IOUtils, Json
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES ly, sets, from
Fields0 == <<B("Start"), B("end"), B("Name"), B("Actor"), NMarginT, B("Effect"), NText>>
Sets0 == << <<>>, << [f |-> "Text", v |-> B("a, b")], [f |-> "Name", v |-> B("Bob")] >>, << [f |-> "Start", v |-> B("0:00:01.00")], [f |-> "Start", v |-> B("0:00:02.00")], [f |-> "MarginT", v |-> B("7")], [f |-> "Effect", v |-> <<>>] >>,
           << [f |-> "End", v |-> B("x")], [f |-> "Text", v |-> <<>>] >> >>
Line0 == B("Sound: 1, 2 ,3,,")
Text0(f) == B("[Events]") \o <<NL>> \o PFormat \o Join(f, <<COMMA>>) \o <<NL>> \o B("Comment: 9,9,9,9,9") \o <<NL>> \o Line0 \o <<NL>> \o B("end")
Hist(f, x, fr) == << [op |-> "reset", t |-> Text0(f)], [op |-> "event", how |-> "format", fmt |-> f, from |-> fr, sets |-> x] >>
                  \o (IF f = <<>> THEN <<>> ELSE << [op |-> "edit", n |-> 1, from |-> fr, sets |-> x], [op |-> "undo"], [op |-> "edit", n |-> 0, from |-> fr, sets |-> x] >>)
Init == ly = <<>> /\ sets \in {Sets0[i] : i \in 1..Len(Sets0)} /\ from \in {"keep", "new", "comment"}
Next == /\ Len(ly) < MaxLen /\ \E i \in 1..Len(Fields0) : ~Known(ly, Fields0[i]) /\ ly' = Append(ly, Fields0[i])
        /\ UNCHANGED <<sets, from>>
        /\ Printing => PrintT(<<"HIST", ToJson(Hist(ly', sets, from))>>)
Ty == TypeOfNew(from)
Vals == EventValues("format", ly, sets)
Line == B(Ty) \o <<COLON, 32>> \o Join(Vals, <<COMMA>>)
TextLast == ly # <<>> /\ ly[Len(ly)] = NText
Fits == ly # <<>> /\ (TextLast \/ SetIn(sets, NText) = <<>> \/ ~HoldsText(ly))
InvLine == EventBuilds("format", ly) /\ Fits => ValuesOf(Line, B(Ty) \o <<COLON>>, ly) = Trimmed(Vals) /\ EventReads(Ty, Line, ly, Vals)
InvPlain == \A how \in {"plain", "ssa"} : Len(EventValues(how, <<>>, sets)) = 10 /\ Len(StyleValues(how, <<>>, <<>>)) = (IF how = "ssa" THEN 18 ELSE 23)
InvStyle == \A how \in {"plain", "ext"} : LET y == StyleLayout(how, <<>>)  v == StyleValues(how, <<>>, << [f |-> "Bold", v |-> B("-1")] >>) IN StyleReads(PStyle \o <<32>> \o Join(v, <<COMMA>>), y, v)
Doc0 == Text0(ly)
Evs == Events(Parse(Doc0))
Edited == Events(Parse(BuiltText(Doc0, Evs[2], from, sets)))
Cell(ev, f) == LET k == Pos(ev.fmt, f) IN IF k = 0 THEN <<>> ELSE <<Trim(Split(Drop(Line0, 6), COMMA)[k])>>
\* every field has the value set, or what it had (or its default for a new builder); the other event stays
Both == Pos(ly, NName) # 0 /\ Pos(ly, NActor) # 0
InvEdit == Len(Evs) = 2 /\ Fits /\ ~Both =>
  /\ Len(Edited) = 2 /\ Edited[1].f = Evs[1].f /\ Edited[2].ty = (IF from = "comment" THEN "Comment" ELSE "Sound")
  /\ \A i \in 1..Len(EventNames) : Pos(ly, EventNames[i]) # 0 =>
       Edited[2].f[i] = (LET x == SetIn(sets, EventNames[i]) IN IF x # <<>> THEN x[1] ELSE IF from = "keep" THEN Evs[2].f[i] ELSE Lookup(EventDefault, EventNames[i]))
InvSame == Len(Evs) = 2 /\ from = "keep" /\ sets = <<>> => BuiltText(Doc0, Evs[2], from, sets) = Doc0
===============================================================================
