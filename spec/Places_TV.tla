------------------------------ MODULE Places_TV -------------------------------
(* Replays recorded positions, conversions and edits at places.               *)
EXTENDS Places, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
Cmp(what, e, o) == IF e = o THEN "" ELSE what \o ": expected " \o ToString(e) \o " observed " \o ToString(o)
RECURSIVE First(_)
First(es) == IF es = <<>> THEN "" ELSE IF Head(es) # "" THEN Head(es) ELSE First(Tail(es))
\* edits: the text after, <<>> if the edit is refused
Where(t, r) == CASE r.by = "line" -> PlaceAt(t, r.at, 1) [] r.by = "start" -> 0 [] r.by = "end" -> Len(t) [] OTHER -> IF r.at <= Len(t) /\ Edge(t, r.at) THEN r.at ELSE 0 - 1
AtPlace(t, r) ==
  LET p == Where(t, r) IN
  IF p < 0 THEN <<>>
  ELSE CASE r.kind = "insert" -> <<Splice(t, p, p, r.x)>>
         [] r.kind = "break" -> <<Splice(t, p, p, <<10>>)>>
         [] r.kind = "delete" -> LET e == After(t, p, r.n) IN IF e < 0 THEN <<>> ELSE <<Splice(t, p, e, <<>>)>>
         [] r.kind = "back" -> <<Splice(t, Before(t, p, r.n), p, <<>>)>>
         [] r.kind = "line" -> <<ToLineEnd(t, p, r.x)>>
Sound(t, r) == r.from <= r.to /\ r.to <= Len(t) /\ Edge(t, r.from) /\ Edge(t, r.to)
OnRange(t, r) ==
  IF ~Sound(t, r) THEN <<>>
  ELSE CASE r.kind = "with" -> <<Splice(t, r.from, r.to, r.x)>>
         [] r.kind = "delete" -> <<Splice(t, r.from, r.to, <<>>)>>
         [] r.kind = "wrap" -> <<Splice(t, r.from, r.to, r.x \o SubSeq(t, r.from + 1, r.to) \o r.y)>>
         [] r.kind = "indent" -> <<Shifted(t, r.from, r.to, r.n)>>
         [] r.kind = "unindent" -> <<IF r.n = 0 THEN t ELSE Shifted(t, r.from, r.to, 0 - r.n)>>
Edited(t, want, r) ==
  IF want = <<>> THEN First(<<Cmp("refused", FALSE, r.ok), Cmp("text", t, r.after)>>)
  ELSE First(<<Cmp("done", TRUE, r.ok), Cmp("text", want[1], r.after), Cmp("lines", Len(Rows(r.after)), r.count)>>)
Built(t, r) == CASE r.by = "offset" -> (IF r.line <= Len(t) THEN r.line ELSE 0 - 1)
                 [] r.by = "start" -> PlaceAt(t, r.line, 1)
                 [] r.by = "end" -> IF r.line < 1 \/ r.line > Len(Rows(t)) THEN 0 - 1 ELSE Rows(t)[r.line].e
                 [] OTHER -> PlaceAt(t, r.line, r.col)
Ranges(r) ==
  LET a == Norm(r.a, r.b)  b == Norm(r.c, r.d)  m == Meet(a, b) IN
  First(<< Cmp("range", a, r.range), Cmp("contains", In(a, r.p), r.has), Cmp("empty", a[1] = a[2], r.empty), Cmp("length", a[2] - a[1], r.length),
           IF a[1] = a[2] \/ b[1] = b[2] THEN "" ELSE Cmp("overlaps", m # {}, r.overlaps), Cmp("meet", IF m = {} THEN <<>> ELSE <<Hi(a[1], b[1]), Lo(a[2], b[2])>>, r.meet),
           Cmp("union", <<Lo(a[1], b[1]), Hi(a[2], b[2])>>, r.union), Cmp("extended", <<Lo(a[1], r.p), Hi(a[2], r.p)>>, r.ext),
           Cmp("selection", <<a, r.b < r.a, r.a = r.b>>, <<r.sel, r.rev, r.none>>), Cmp("selected to", Norm(r.a, r.p), r.selext) >>)
Same(t) == [t |-> t, prev |-> <<>>]
Reset(r) == [st |-> Same(r.t), err |-> Cmp("lines", Len(Rows(r.t)), r.count), tag |-> "reset"]
Step(s, r) ==
  CASE r.op = "ranges" -> [st |-> s, tag |-> "ranges", err |-> Ranges(r)]
    [] r.op = "where" -> [st |-> s, tag |-> IF r.at > Len(s.t) THEN "where/none" ELSE IF Edge(s.t, r.at) THEN "where" ELSE "where/within",
                          err |-> IF r.at > Len(s.t) THEN Cmp("refused", <<<<>>, <<>>, <<>>>>, r.got)
                                  ELSE IF Edge(s.t, r.at) THEN LET w == LineCol(s.t, r.at) IN Cmp("line and column", <<w, w, w>>, r.got) ELSE ""]
    [] r.op = "place" -> LET e == Built(s.t, r) IN [st |-> s, tag |-> "place/" \o r.by \o (IF e < 0 THEN "/none" ELSE ""), err |-> Cmp("place", e, r.got)]
    [] r.op = "text" -> [st |-> s, tag |-> "text", err |-> IF Sound(s.t, r) THEN Cmp("selected", SubSeq(s.t, r.from + 1, r.to), r.got) ELSE Cmp("selected", <<>>, r.got)]
    [] r.op = "undo" -> [st |-> Same(r.after), tag |-> IF s.prev = <<>> THEN "undo/none" ELSE "undo",
                         err |-> IF s.prev = <<>> THEN "" ELSE First(<<Cmp("undone", TRUE, r.ok), Cmp("text", s.prev[1], r.after)>>)]
    [] OTHER -> LET want == IF r.op = "at" THEN AtPlace(s.t, r) ELSE OnRange(s.t, r) IN
                [st |-> [t |-> r.after, prev |-> IF r.ok /\ r.after # s.t THEN <<s.t>> ELSE <<>>], tag |-> r.op \o "/" \o r.kind \o (IF want = <<>> THEN "/refused" ELSE ""), err |-> Edited(s.t, want, r)]
INSTANCE TraceRun
===============================================================================
