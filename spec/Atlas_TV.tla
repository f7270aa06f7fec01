------------------------------ MODULE Atlas_TV ------------------------------
EXTENDS Atlas, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
Px(q, r) == IF r.px = q.px THEN "" ELSE "pixels: expected " \o ToString(q.px) \o " observed " \o ToString(r.px)
Reset(r) == LET q == Fresh(r.w, r.hh) IN [st |-> q, err |-> Px(q, r), tag |-> "reset"]
Alloc(q, r) ==
  LET w == r.w  h == r.hh IN
  IF r.ans = <<>> THEN
    [st |-> q, tag |-> IF Fits(q, w, h) THEN "alloc/full" ELSE "alloc/toobig", err |-> IF q.got = <<>> /\ Fits(q, w, h) THEN "no room in an empty atlas" ELSE Px(q, r)]
  ELSE LET g == SubSeq(r.ans, 2, 5) IN
    [st |-> Give(q, g), tag |-> "alloc/given",
     err |-> IF May(q, w, h, r.ans[1], g) THEN Px(q, r) ELSE "gave " \o ToString(r.ans) \o " beside " \o ToString(q.got) \o " in " \o ToString(<<q.w, q.h>>)]
Write(q, r) ==
  IF r.ans = <<>> THEN [st |-> q, tag |-> "write/none", err |-> IF r.k < Len(q.got) THEN "region lost" ELSE Px(q, r)]
  ELSE LET g == q.got[r.k + 1]
           n == g[3] * g[4] * 4
           rows == IF r.short = 0 THEN g[4] ELSE IF r.short >= n THEN 0 ELSE (n - r.short) \div (4 * g[3])
           p == Paint(q, g, r.v, rows) IN
       [st |-> p, tag |-> IF r.short = 0 THEN "write/whole" ELSE "write/short", err |-> Px(p, r)]
Step(q, r) == CASE r.op = "alloc" -> Alloc(q, r) [] r.op = "write" -> Write(q, r)
                [] r.op = "clear" -> LET p == Fresh(q.w, q.h) IN [st |-> p, err |-> Px(p, r), tag |-> "clear"]
INSTANCE TraceRun
=============================================================================
