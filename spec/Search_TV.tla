----------------------------- MODULE Search_TV ------------------------------
(* Replays recorded searches and replacements of the real code. A search is   *)
(* of the text indexed last, a replacement of the document as it is.          *)
EXTENDS Search, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
Cmp(what, e, o) == IF e = o THEN "" ELSE what \o ": expected " \o ToString(e) \o " observed " \o ToString(o)
RECURSIVE First(_)
First(es) == IF es = <<>> THEN "" ELSE IF Head(es) # "" THEN Head(es) ELSE First(Tail(es))
OptsOf(r) == [exact |-> r.exact, whole |-> r.whole, max |-> r.max, scope |-> [kind |-> r.scope, a |-> r.a, b |-> r.b, names |-> r.names]]
\* "no": the pattern as it is; "yes": a regular expression that spells it; "bad": none
Found(t, r) == LET ms == Matches(t, r.pat, OptsOf(r))  ls == LinesOf(t) IN TLCEval([k \in 1..Len(ms) |-> ToldIn(ls, t, ms[k])])
Tag(r) == r.op \o "/" \o r.scope \o "/" \o r.regex
Reset(r) == [st |-> [t |-> r.t, idx |-> <<>>], err |-> "", tag |-> "reset/" \o r.engine]
Step(s, r) ==
  CASE r.op \in {"build", "update"} -> [st |-> [s EXCEPT !.idx = s.t], err |-> Cmp("done", TRUE, r.ok), tag |-> r.op]
    [] r.op = "clear" -> [st |-> [s EXCEPT !.idx = <<>>], err |-> "", tag |-> "clear"]
    [] r.op = "edit" -> [st |-> [s EXCEPT !.t = r.after], err |-> First(<<Cmp("done", TRUE, r.ok), Cmp("text", SubSeq(s.t, 1, r.a) \o r.new \o From(s.t, r.b + 1), r.after)>>), tag |-> "edit"]
    [] r.op = "search" ->
       [st |-> s, tag |-> Tag(r),
        err |-> IF r.regex = "bad" THEN (IF s.idx = <<>> THEN "" ELSE Cmp("refused", FALSE, r.ok))
                ELSE First(<<Cmp("done", TRUE, r.ok), Cmp("found", Found(s.idx, r), r.got)>>)]
    [] r.op = "replace" ->
       [st |-> [s EXCEPT !.t = r.after], tag |-> Tag(r),
        err |-> IF r.regex = "bad" THEN First(<<Cmp("refused", FALSE, r.ok), Cmp("text", s.t, r.after)>>)
                ELSE First(<<Cmp("done", TRUE, r.ok), Cmp("found", Found(s.t, r), r.got), Cmp("text", Replaced(s.t, r.pat, r.new, OptsOf(r)), r.after)>>)]
INSTANCE TraceRun
=============================================================================
