------------------------------ MODULE EvCmd_TV ------------------------------
(* Validates what the real event commands and queries did against EvCmd.      *)
(* E11 judges the commands, E12 the queries.                                  *)
EXTENDS EvCmd, Json, IOUtils
Prop == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov

CmdStep(s, r) ==
  LET x == Command(s.t, r)
      e == FirstDiff(<< <<"outcome", x.ok, r.ok>>, <<"text", x.t, r.after>>,
                        <<"events changed", IF r.cnt < 0 THEN r.cnt ELSE x.n, r.cnt>>,
                        <<"change reported", x.n > 0, IF r.changed \in {0, 1} THEN r.changed = 1 ELSE x.n > 0>> >>)
      post == IF Prop = "E11" THEN x.t ELSE r.after
  IN [st |-> [t |-> post, past |-> IF x.n > 0 THEN Append(s.past, s.t) ELSE s.past],
      err |-> IF Prop = "E11" THEN e ELSE "",
      tag |-> r.op \o (IF ~x.ok THEN "/refused" ELSE IF x.n = 0 THEN "/nothing" ELSE IF x.n = 1 THEN "/one" ELSE "/many")]
UndoStep(s, r) ==
  LET n == Len(s.past)  want == IF n = 0 THEN s.t ELSE s.past[n] IN
  [st |-> [t |-> IF Prop = "E11" THEN want ELSE r.after, past |-> IF n = 0 THEN <<>> ELSE SubSeq(s.past, 1, n - 1)],
   err |-> IF Prop = "E11" THEN FirstDiff(<< <<"undone", n > 0, r.ok>>, <<"text after undo", want, r.after>> >>) ELSE "",
   tag |-> "undo"]
QueryStep(s, r) ==
  LET p == Parse(s.t)  evs == Events(p)  ks == Query(p, r)
      want == [i \in 1..Len(ks) |-> Info(evs, ks[i])]
      e == FirstDiff(<< <<"order", [i \in 1..Len(ks) |-> ks[i] - 1], [i \in 1..Len(r.hits) |-> r.hits[i].index]>>,
                        <<"events", want, r.hits>>, <<"count", Len(ks), r.count>>,
                        <<"total", Len(evs), r.total>>,
                        <<"first", IF ks = <<>> THEN <<>> ELSE <<want[1]>>, r.first>> >>)
  IN [st |-> s, err |-> IF Prop = "E12" THEN e ELSE "",
      tag |-> "query" \o (IF r.by = "" THEN "" ELSE "/sorted") \o (IF ks = <<>> THEN "/none" ELSE IF Len(ks) = Len(evs) THEN "/all" ELSE "/some")]
GetStep(s, r) ==
  LET evs == Events(Parse(s.t)) IN
  [st |-> s, tag |-> IF r.n < Len(evs) THEN "get" ELSE "get/none",
   err |-> IF Prop = "E12" THEN FirstDiff(<< <<"event", IF r.n < Len(evs) THEN <<Info(evs, r.n + 1)>> ELSE <<>>, r.got>> >>) ELSE ""]

Reset(r) == [st |-> [t |-> r.t, past |-> <<>>], err |-> "", tag |-> "reset"]
Step(s, r) == CASE r.op = "undo" -> UndoStep(s, r)
                [] r.op = "query" -> QueryStep(s, r)
                [] r.op = "get" -> GetStep(s, r)
                [] OTHER -> CmdStep(s, r)
INSTANCE TraceRun
=============================================================================
