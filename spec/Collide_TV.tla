----------------------------- MODULE Collide_TV -----------------------------
EXTENDS Collide, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
Boxes(q) == [i \in 1..Len(q.placed) |-> q.placed[i].b]
Err(d, r) == IF r.ans # d.ans THEN "expected " \o ToString(d.ans) \o " observed " \o ToString(r.ans)
             ELSE IF r.placed # Boxes(d.st) THEN "placed: expected " \o ToString(Boxes(d.st)) \o " observed " \o ToString(r.placed) ELSE ""
Reset(r) == LET d == [st |-> Fresh(2 * r.hh), ans |-> <<>>] IN [st |-> d.st, err |-> Err(d, r), tag |-> "reset"]
Step(q, r) ==
  LET d == Do(q, r) IN
  [st |-> d.st, err |-> Err(d, r),
   tag |-> r.op \o "/" \o (IF r.op = "place" THEN (LET p == Push(q.placed, r.layer, r.an, Boxed(r), q.m) IN
                              IF p = Boxed(r) THEN "stays" ELSE IF p = d.ans[1] THEN "moves" ELSE "squeezed") \o (IF Up(r.an) THEN "-up" ELSE "-down")
                            ELSE IF r.op = "free" THEN (IF Len(d.ans) = 1 THEN "nowhere" ELSE "found") ELSE "ok")]
INSTANCE TraceRun
=============================================================================
