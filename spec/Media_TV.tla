------------------------------ MODULE Media_TV --------------------------------
(* Replays recorded font and graphics commands of the real code.              *)
EXTENDS Media, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
Cmp(what, e, o) == IF e = o THEN "" ELSE what \o ": expected " \o ToString(e) \o " observed " \o ToString(o)
Ask(what, ok) == IF ok THEN "" ELSE what
RECURSIVE First(_)
First(es) == IF es = <<>> THEN "" ELSE IF Head(es) # "" THEN Head(es) ELSE First(Tail(es))
Refused(s, r) == \/ r.op = "add" /\ ~Embeds(r.kind, r.name, r.lines)
                 \/ r.op = "remove" /\ Of(s.d, r.kind) = <<>>
Want(s, r) == CASE r.op = "add" -> Added(s.d, r.kind, r.name, r.lines)
                [] r.op = "remove" -> Removed(s.d, r.kind, r.name)
                [] r.op = "clear" -> Cleared(s.d, r.kind)
Still(s, r) == r.op # "add" /\ Want(s, r) = s.d
Judge(s, r, d) ==
  IF Refused(s, r) THEN First(<<Cmp("refused", FALSE, r.ok), Cmp("text", s.t, r.after)>>)
  ELSE First(<< Cmp("done", TRUE, r.ok), Cmp("says", Want(s, r), d),
                CASE r.op = "add" -> First(<<Ask("not one insertion", OnePut(s.t, r.after)), IF r.how = "bytes" THEN First(<<Cmp("lines hold", r.bin, C!DecodeUU(r.lines, 1, <<>>)), Cmp("decodes", r.bin, r.dec)>>) ELSE "">>)
                  [] r.op = "remove" -> IF Still(s, r) THEN Cmp("text", s.t, r.after) ELSE Ask("not one removal", OnePut(r.after, s.t))
                  [] OTHER -> Cmp("elsewhere", Rest(s.t, r.kind), Rest(r.after, r.kind)),
                Cmp("changed", r.after # s.t, r.changed) >>)
Tag(s, r) == r.op \o "/" \o r.kind \o (IF Refused(s, r) THEN "/refused" ELSE IF Still(s, r) THEN "/nothing" ELSE IF r.op = "add" THEN "/" \o r.how ELSE "")
At(t) == [t |-> t, d |-> Doc(t)]
Reset(r) == [st |-> At(r.t) @@ [prev |-> <<>>], err |-> "", tag |-> "reset"]
Step(s, r) ==
  CASE r.op = "list" -> [st |-> s, tag |-> "list/" \o r.kind, err |-> First(<<Cmp("listed", TRUE, r.ok), LET ns == Names(s.d, r.kind) IN First(<<Cmp("names", ns, r.names), Cmp("told", <<ns, Len(ns), ns # <<>>>>, r.told)>>)>>)]
    [] r.op = "undo" -> [st |-> At(r.after) @@ [prev |-> <<>>], tag |-> IF s.prev = <<>> THEN "undo/none" ELSE "undo",
                         err |-> IF s.prev = <<>> THEN "" ELSE First(<<Cmp("undone", TRUE, r.ok), Cmp("text", s.prev[1], r.after)>>)]
    [] OTHER -> LET n == At(r.after) IN [st |-> n @@ [prev |-> IF r.ok /\ r.after # s.t THEN <<s.t>> ELSE <<>>], err |-> Judge(s, r, n.d), tag |-> Tag(s, r)]
INSTANCE TraceRun
===============================================================================
