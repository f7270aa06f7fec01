----------------------------- MODULE Frames_TV ------------------------------
EXTENDS Frames, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
Reset(r) == [st |-> Fresh(r.w, r.hh), err |-> "", tag |-> "reset"]
\* in a list of bitmaps each blend is exact, in a frame it is rounded
Tolerance(n) == 2 + n
Look(q, r) ==
  LET k == Key(q, IF r.op \in {"bitmaps", "freshmaps"} THEN "bitmaps" ELSE "frame", r.t)
      old == SelectInSeq(q.seen, LAMBDA x : x.k = k)
      n == Len(k.evs)
      tag == r.op \o "/" \o (IF n = 0 THEN "empty" ELSE IF old = 0 THEN "first" ELSE IF q.seen[old].t = r.t THEN "again" ELSE "same")
             \o (IF n > 0 /\ k.t >= 0 THEN "-changing" ELSE "") IN
  [st |-> IF old = 0 THEN [q EXCEPT !.seen = Append(@, [k |-> k, dg |-> r.dg, t |-> r.t])] ELSE q, tag |-> tag,
   err |-> IF r.fw # q.w \/ r.fh # q.h \/ r.bytes # 4 * q.w * q.h THEN "size " \o ToString(<<r.fw, r.fh, r.bytes>>)
           ELSE IF r.ts # r.t THEN "stamped " \o ToString(r.ts)
           ELSE IF n = 0 /\ ~r.blank THEN "something is shown and nothing is active"
           ELSE IF old # 0 /\ q.seen[old].dg # r.dg THEN "differs from the frame at " \o ToString(q.seen[old].t)
           ELSE IF r.over > 0 /\ \A i \in 1..n : ~k.evs[i].bl THEN ToString(r.over) \o " pixels hold more colour than opacity"
           ELSE IF r.offa > Tolerance(6 * n) THEN "opacity of the bitmaps differs from that of the frame by " \o ToString(r.offa)
           \* colours beyond their opacity saturate in an order of their own
           ELSE IF r.off > Tolerance(6 * n) /\ \A i \in 1..n : ~k.evs[i].bl THEN "bitmaps differ from the frame by " \o ToString(r.off) ELSE ""]
Step(q, r) ==
  CASE r.op = "script" -> [st |-> [q EXCEPT !.script = [info |-> r.info, styles |-> r.styles, order |-> r.order, evs |-> r.evs]], err |-> "", tag |-> "script"]
    [] r.op = "size" -> [st |-> [q EXCEPT !.w = r.w, !.h = r.hh], err |-> "", tag |-> "size"]
    [] OTHER -> Look(q, r)
INSTANCE TraceRun
=============================================================================
