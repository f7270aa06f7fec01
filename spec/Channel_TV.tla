----------------------------- MODULE Channel_TV -----------------------------
EXTENDS Channel, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
Out(d, r, tag) ==
  LET want == <<d.c.sent, Len(d.c.hs), d.c.filtered, d.c.queued>> IN
  [st |-> d.c, tag |-> tag,
   err |-> IF r.res # d.res \/ r.val # d.val THEN "expected " \o ToString(<<d.res, d.val>>) \o " observed " \o ToString(<<r.res, r.val>>)
           ELSE IF r.log # d.log THEN "told: expected " \o ToString(d.log) \o " observed " \o ToString(r.log)
           ELSE IF r.queue # d.queue THEN "queue: expected " \o ToString(d.queue) \o " observed " \o ToString(r.queue)
           ELSE IF r.stats # want THEN "statistics: expected " \o ToString(want) \o " observed " \o ToString(r.stats) ELSE ""]
Reset(r) == Out(Ans(NoChannel(r.max), "", <<>>, <<>>), r, "reset")
Full(o) == [op |-> o.op, pri |-> o.pri, inc |-> IF "inc" \in DOMAIN o THEN o.inc ELSE <<>>, exc |-> IF "exc" \in DOMAIN o THEN o.exc ELSE <<>>, mods |-> o.mods, cur |-> o.cur, fail |-> o.fail]
Step(c, r) == LET d == Do(c, IF r.op = "register" THEN Full(r) ELSE r) IN
              Out(d, r, r.op \o "/" \o (IF d.res # "" THEN "refused" ELSE IF r.op \in {"dispatch", "batch"} THEN (IF d.log = <<>> THEN "nobody" ELSE IF Len(d.log) > 1 THEN "several" ELSE "one") ELSE "ok"))
INSTANCE TraceRun
=============================================================================
