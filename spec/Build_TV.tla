------------------------------ MODULE Build_TV -------------------------------
(* Judges lines the real builders made and events the real document edited.   *)
EXTENDS Build, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
RECURSIVE Firstly(_)
Firstly(es) == IF es = <<>> THEN "" ELSE IF Head(es) # "" THEN Head(es) ELSE Firstly(Tail(es))
Cmp(what, e, o) == IF e = o THEN "" ELSE what \o ": expected " \o ToString(e) \o " observed " \o ToString(o)
Ask(what, ok) == IF ok THEN "" ELSE what
\* a comma has room in a text that stands last only
Fit(ly, vs) == \A i \in 1..Len(vs) : ~Has(vs[i], NL) /\ (Has(vs[i], COMMA) => i = Len(ly) /\ SameNoCase(ly[i], NText))
Kind(r) == r.op \o "/" \o r.how
EventStep(s, r) ==
  IF ~EventBuilds(r.how, r.fmt) THEN [st |-> s, err |-> Cmp("built", FALSE, r.ok), tag |-> Kind(r) \o "/refused"]
  ELSE LET ly == EventLayout(r.how, r.fmt)  vs == EventValues(r.how, r.fmt, r.sets)  ty == TypeOfNew(r.from)
           e == IF ~Fit(ly, vs) THEN "" ELSE Firstly(<<Cmp("built", TRUE, r.ok), Cmp("values", Trimmed(vs), ValuesOf(r.line, B(ty) \o <<COLON>>, ly)),
                          IF r.how = "ssa" THEN "" ELSE Ask("not read as one event with these values", EventReads(ty, r.line, ly, vs))>>)
       IN [st |-> s, err |-> e, tag |-> IF Fit(ly, vs) THEN Kind(r) ELSE Kind(r) \o "/no room"]
StyleStep(s, r) ==
  IF ~StyleBuilds(r.how, r.fmt) THEN [st |-> s, err |-> Cmp("built", FALSE, r.ok), tag |-> Kind(r) \o "/refused"]
  ELSE LET ly == StyleLayout(r.how, r.fmt)  vs == StyleValues(r.how, r.fmt, r.sets)
           e == Firstly(<<Cmp("built", TRUE, r.ok), Cmp("values", Trimmed(vs), ValuesOf(r.line, PStyle, ly)),
                          IF r.how = "ssa" THEN "" ELSE Ask("not read as one style with these values", StyleReads(r.line, ly, vs))>>)
       IN [st |-> s, err |-> e, tag |-> Kind(r)]
EditStep(s, r) ==
  LET evs == Events(Parse(s.t)) IN
  IF r.n >= Len(evs) THEN [st |-> s, err |-> Firstly(<<Cmp("edited", FALSE, r.ok), Cmp("text", s.t, r.after)>>), tag |-> "edit/refused"]
  ELSE LET ev == evs[r.n + 1]  want == BuiltText(s.t, ev, r.from, r.sets)
       IN [st |-> [t |-> want, prev |-> <<s.t>>], tag |-> "edit/" \o (IF want = s.t THEN "same" ELSE r.from),
           err |-> Firstly(<<Cmp("edited", TRUE, r.ok), Cmp("text", want, r.after), Cmp("line", Trim(BuiltRaw(Raw(s.t, ev), ev, r.from, r.sets)), r.line)>>)]
UndoStep(s, r) == [st |-> [t |-> r.after, prev |-> <<>>], tag |-> IF s.prev = <<>> THEN "undo/none" ELSE "undo",
                   err |-> IF s.prev = <<>> THEN "" ELSE Firstly(<<Cmp("undone", TRUE, r.ok), Cmp("text", s.prev[1], r.after)>>)]
Reset(r) == [st |-> [t |-> r.t, prev |-> <<>>], err |-> "", tag |-> "reset"]
Step(s, r) == CASE r.op = "event" -> EventStep(s, r) [] r.op = "style" -> StyleStep(s, r) [] r.op = "edit" -> EditStep(s, r) [] r.op = "undo" -> UndoStep(s, r)
INSTANCE TraceRun
===============================================================================
