----------------------------- MODULE Caches_TV ------------------------------
EXTENDS Caches, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
Stats(q, r) == IF <<q.th, q.tm, q.dh, q.dm>> = SubSeq(r.stats, 1, 4) /\ r.stats[5] >= q.lo /\ r.stats[5] <= q.hi THEN ""
               ELSE "statistics: expected " \o ToString(<<q.th, q.tm, q.dh, q.dm, q.lo, q.hi>>) \o " observed " \o ToString(r.stats)
Reset(r) == LET q == Fresh(r.maxt, r.maxd) IN [st |-> q, err |-> Stats(q, r), tag |-> "reset"]
Out(q, r, tag) == [st |-> q, tag |-> tag, err |-> Stats(q, r)]
Wrong(q, r, M) == [st |-> q, tag |-> r.op, err |-> "answered " \o ToString(r.ans) \o " with " \o ToString(M)]
Put(M, max) == IF max = 0 THEN "disabled" ELSE IF \E f \in M : Cardinality(DOMAIN f) >= max THEN "full" ELSE "room"
Step(q, r) ==
  CASE r.op = "putt" -> IF r.ans # r.v THEN Wrong(q, r, {})
                        ELSE Out([Count(q, q.mt, q.t, r.k) EXCEPT !.t = StoreAll(q.mt, q.t, r.k, r.v)], r, "putt/" \o Put(q.t, q.mt))
    [] r.op = "putd" -> Out([Count(q, q.md, q.d, r.k) EXCEPT !.d = StoreAll(q.md, q.d, r.k, r.v)], r, "putd/" \o Put(q.d, q.md))
    [] r.op = "gett" -> LET M == Agree(q.t, r.k, r.ans) IN
                        IF M = {} THEN Wrong(q, r, q.t) ELSE Out([q EXCEPT !.t = M, !.th = @ + (IF r.ans = -1 THEN 0 ELSE 1), !.tm = @ + (IF r.ans = -1 THEN 1 ELSE 0)], r, IF r.ans = -1 THEN "gett/miss" ELSE "gett/hit")
    [] r.op = "getd" -> LET M == Agree(q.d, r.k, r.ans) IN
                        IF M = {} THEN Wrong(q, r, q.d) ELSE Out([q EXCEPT !.d = M, !.dh = @ + (IF r.ans = -1 THEN 0 ELSE 1), !.dm = @ + (IF r.ans = -1 THEN 1 ELSE 0)], r, IF r.ans = -1 THEN "getd/miss" ELSE "getd/hit")
    [] r.op = "clear" -> Out(Fresh(q.mt, q.md), r, "clear")
INSTANCE TraceRun
=============================================================================
