----------------------------- MODULE Select_TV ------------------------------
EXTENDS Select, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
Obs(r) == [act |-> r.act, new |-> r.new, gone |-> r.gone, dirty |-> r.dirty]
Reset(r) == [st |-> Fresh, err |-> "", tag |-> "reset"]
Step(q, r) ==
  LET d == Do(q, r) IN
  [st |-> d.st, err |-> IF Obs(r) = d.out THEN "" ELSE "expected " \o ToString(d.out) \o " observed " \o ToString(Obs(r)),
   tag |-> r.op \o "/" \o (IF r.op # "select" THEN "" ELSE IF d.out.act = <<>> THEN "none" ELSE IF ~d.out.dirty THEN "same" ELSE IF d.out.gone # <<>> THEN "gone" ELSE IF d.out.new # <<>> THEN "new" ELSE "animated")]
INSTANCE TraceRun
=============================================================================
