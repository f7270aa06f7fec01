----------------------------- MODULE Regions_TV -----------------------------
EXTENDS Regions, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
Box(o) == [x |-> o.x, y |-> o.y, w |-> o.w, hh |-> o.hh]
Reset(r) == [st |-> <<>>, err |-> IF r.list = <<>> THEN "" ELSE "not empty", tag |-> "reset"]
\* whether two regions that merely touch intersect is left open
Pair(r) == LET a == Box(r.a)  b == Box(r.b)  m == Hull(a, b) IN
           /\ SubSeq(r.ans, 1, 4) = <<m.x, m.y, m.w, m.hh>>
           /\ (Overlap(a, b) => r.ans[5] = 1) /\ (Apart(a, b) => r.ans[5] = 0)
           /\ (r.ans[6] = 1) = Point(a, r.px, r.py) /\ r.ans[7] = a.w * a.hh
Step(m, r) ==
  LET n == CASE r.op = "add" -> Append(m, Box(r)) [] r.op \in {"clear", "forget"} -> <<>> [] OTHER -> m IN
  [st |-> n, tag |-> r.op \o "/" \o (IF r.op = "pair" THEN (IF Overlap(Box(r.a), Box(r.b)) THEN "overlap" ELSE IF Apart(Box(r.a), Box(r.b)) THEN "apart" ELSE "touch")
                                      ELSE IF Len(r.list) < Len(n) THEN "merged" ELSE "listed"),
   err |-> IF ~Sound(r.list, n) THEN "marked " \o ToString(n) \o " but listed " \o ToString(r.list)
           ELSE IF r.op = "pair" /\ ~Pair(r) THEN "pair " \o ToString(<<r.a, r.b>>) \o " gave " \o ToString(r.ans) ELSE ""]
INSTANCE TraceRun
=============================================================================
