----------------------------- MODULE Overlap_TV -----------------------------
(* The pairs reported by the real analysis are exactly the events that meet,  *)
(* each pair once.                                                            *)
EXTENDS Codec, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
Shown(e) == ~Leq(e[2], e[1])
Meet(a, b) == Shown(a) /\ Shown(b) /\ ~Leq(b[2], a[1]) /\ ~Leq(a[2], b[1])
Pairs(evs) == { <<i, j>> \in (1..Len(evs)) \X (1..Len(evs)) : i < j /\ Meet(evs[i], evs[j]) }
Refused == <<<<0, 0>>>>
Norm(p) == IF p[1] < p[2] THEN p ELSE <<p[2], p[1]>>
Reset(r) ==
  LET times == [i \in 1..Len(r.evs) |-> <<ParseTime(r.evs[i][1]), ParseTime(r.evs[i][2])>>]
      broken == \E i \in 1..Len(times) : times[i][1] = Bad \/ times[i][2] = Bad
      want == Pairs(times)
      got(o) == { Norm(o[i]) : i \in 1..Len(o) }
      ok(o) == got(o) = want /\ Len(o) = Cardinality(want)
      err == IF Len(r.evs) < 2 THEN (IF r.a = <<>> /\ r.b = <<>> /\ r.n = 0 THEN "" ELSE "fewer than two events: " \o ToString(r.a))
             ELSE IF broken THEN (IF r.a = Refused /\ r.b = Refused /\ r.n = -1 THEN "" ELSE "unreadable time not reported")
             ELSE IF r.a = Refused \/ r.b = Refused \/ r.n = -1 THEN "refused"
             ELSE IF ~ok(r.a) THEN "expected " \o ToString(want) \o " observed " \o ToString(r.a)
             ELSE IF ~ok(r.b) THEN "references: expected " \o ToString(want) \o " observed " \o ToString(r.b)
             ELSE IF r.n # Cardinality(want) THEN "count: expected " \o ToString(Cardinality(want)) \o " observed " \o ToString(r.n)
             ELSE ""
  IN [st |-> [ok |-> TRUE], err |-> err,
      tag |-> IF broken THEN "unreadable" ELSE IF Len(r.evs) < 2 THEN "few" ELSE IF want = {} THEN "apart" ELSE "overlapping"]
Step(s, r) == Reset(r)
INSTANCE TraceRun
=============================================================================
