------------------------------- MODULE Caches -------------------------------
(* A cache with a limit: it answers with what was last stored under a key or  *)
(* not at all, never holds more than its limit, and drops an entry only to    *)
(* make room for another.  Which entry goes is not specified, so the state    *)
(* keeps every possibility: a set of maps from keys to values.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoMap == [k \in {} |-> 0]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Store(max, f, k, v) ==
  IF k \in DOMAIN f THEN {Set(f, k, v)}
  ELSE IF max = 0 THEN {f}
  ELSE IF Cardinality(DOMAIN f) < max THEN {Set(f, k, v)}
  ELSE {Set(Without(f, x), k, v) : x \in DOMAIN f}
StoreAll(max, M, k, v) == UNION {Store(max, f, k, v) : f \in M}
Evicts(max, M, k) == max > 0 /\ \A f \in M : k \notin DOMAIN f /\ Cardinality(DOMAIN f) >= max
Keeps(max, M, k) == \A f \in M : k \in DOMAIN f \/ Cardinality(DOMAIN f) < max \/ max = 0
\* the possibilities that agree with an answer (-1 stands for a miss)
Agree(M, k, a) == {f \in M : IF a = -1 THEN k \notin DOMAIN f ELSE k \in DOMAIN f /\ f[k] = a}

Fresh(mt, md) == [mt |-> mt, md |-> md, t |-> {NoMap}, d |-> {NoMap}, th |-> 0, tm |-> 0, dh |-> 0, dm |-> 0, lo |-> 0, hi |-> 0]
\* evictions so far: exact unless the cache's contents are themselves uncertain
Count(q, max, M, k) == LET q1 == IF Evicts(max, M, k) THEN [q EXCEPT !.lo = @ + 1] ELSE q IN
                       IF Keeps(max, M, k) THEN q1 ELSE [q1 EXCEPT !.hi = @ + 1]
=============================================================================
