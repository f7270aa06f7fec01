----------------------------- MODULE Plugins_TV -----------------------------
EXTENDS Plugins, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
SetOf(x) == {x[i] : i \in 1..Len(x)}
View(z, r) == /\ SetOf(r.view.tags) = Names(z.tags) /\ SetOf(r.view.secs) = Names(z.secs)
              /\ Len(r.view.tags) = Len(z.tags) /\ Len(r.view.secs) = Len(z.secs) /\ r.view.n = Len(z.tags) + Len(z.secs)
Out(z, res, log, r, tag) ==
  [st |-> z, tag |-> tag,
   err |-> IF res # r.res THEN "expected " \o ToString(res) \o " observed " \o ToString(r.res)
           ELSE IF log # r.log THEN "shown: expected " \o ToString(log) \o " observed " \o ToString(r.log)
           ELSE IF ~View(z, r) THEN "registry: expected " \o ToString(<<Names(z.tags), Names(z.secs)>>) \o " observed " \o ToString(r.view) ELSE ""]
Do(z, r) ==
  CASE r.op = "tag" -> LET d == Owned(z.tags, r.name) IN
         Out([z EXCEPT !.tags = Claim(@, r.name, r.who, r.answer)], IF d THEN "duplicate" ELSE "ok", <<>>, r, IF d THEN "tag duplicate" ELSE "tag added")
    [] r.op = "section" -> LET d == Owned(z.secs, r.name) IN
         Out([z EXCEPT !.secs = Claim(@, r.name, r.who, r.answer)], IF d THEN "duplicate" ELSE "ok", <<>>, r, IF d THEN "section duplicate" ELSE "section added")
    [] r.op = "untag" -> LET h == Owner(z.tags, r.name) IN
         Out([z EXCEPT !.tags = Disown(@, r.name)], Answer(h), IF h.who = 0 THEN <<>> ELSE << <<"tag", h.who, <<33>>>> >>, r, IF h.who = 0 THEN "remove none" ELSE "remove tag")
    [] r.op = "unsection" -> LET h == Owner(z.secs, r.name) IN
         Out([z EXCEPT !.secs = Disown(@, r.name)], Answer(h), IF h.who = 0 THEN <<>> ELSE << <<"section", h.who, <<33>>, <<>>>> >>, r, IF h.who = 0 THEN "remove none" ELSE "remove section")
    [] r.op = "clear" -> Out(NoReg, "ok", <<>>, r, "clear")
    [] r.op = "has" -> Out(z, <<Owned(z.tags, r.name), Owned(z.secs, r.name)>>, <<>>, r, "has")
    [] r.op = "run_tag" -> LET h == Owner(z.tags, r.name) IN
         Out(z, Answer(h), IF h.who = 0 THEN <<>> ELSE << <<"tag", h.who, r.args>> >>, r, "run tag " \o h.answer)
    [] r.op = "run_section" -> LET h == Owner(z.secs, r.name) IN
         Out(z, Answer(h), IF h.who = 0 THEN <<>> ELSE << <<"section", h.who, r.header, r.lines>> >>, r, "run section " \o h.answer)
    [] r.op = "aegisub" -> LET a == Aegisub(r.name, r.header, r.lines) IN
         Out(z, <<a, 2, SameNoCase(r.header, r.name) /\ (r.name = NProject => r.lines # <<>>)>>, <<>>, r, "aegisub " \o a)
    [] OTHER ->
         LET sh == ReadWith(z, r.t)  ls == ParseLines(r.t)
             spoke == SelectSeq(sh, Spoke)
             log == [i \in 1..Len(sh) |-> <<"section", sh[i].who, sh[i].header, sh[i].lines>>]
             res == [same |-> TRUE, rest |-> TRUE, doc |-> DocData(Parse(r.t)), plug |-> [i \in 1..Len(spoke) |-> IssueOf(spoke[i], ls, r.t)]] IN
         Out(z, res, log, r, "read " \o (IF sh = <<>> THEN "untouched" ELSE IF spoke = <<>> THEN "ignored" ELSE "shown"))
Reset(r) == Out(NoReg, "ok", <<>>, r, "new")
Step(z, r) == Do(z, r)
INSTANCE TraceRun
=============================================================================
