------------------------------ MODULE TraceRun ------------------------------
(* Generic trace validation: replays a recorded trace of the implementation   *)
(* through the specification's own step function.  A trace is a sequence of   *)
(* records grouped into histories; a record whose op is "reset" starts a      *)
(* history.  Step(s, r) evaluates the specification in state s on the         *)
(* operation of record r and compares with what the record observed; it       *)
(* returns [st |-> next state, err |-> "" or the disagreement, tag |-> the    *)
(* specification branch taken].  After a disagreement the rest of that        *)
(* history is skipped, so that every other history is still checked.          *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Trace, Reset(_), Step(_, _)
VARIABLES l, st, bad, cov

Bump(c, t) == IF t \in DOMAIN c THEN [c EXCEPT ![t] = @ + 1] ELSE c @@ (t :> 1)

Panicked(s, r) == [st |-> s, tag |-> r.op \o "/panic", err |-> "panic: " \o r.msg]

TInit == /\ l = 1
         /\ st = [none |-> TRUE]
         /\ bad = FALSE
         /\ cov = [t \in {"records"} |-> 0]

TNext ==
  /\ l <= Len(Trace)
  /\ LET r     == Trace[l]
         first == r.op = "reset"
         skip  == bad /\ ~first
         res   == IF skip THEN [st |-> st, err |-> "", tag |-> "skipped"]
                  ELSE IF r.panic THEN Panicked(st, r)
                  ELSE IF first THEN Reset(r) ELSE Step(st, r)
     IN /\ st' = res.st
        /\ bad' = (skip \/ res.err # "")
        /\ IF res.err # "" THEN PrintT(<<"MISMATCH", r.h, r.i, res.tag, res.err>>) ELSE TRUE
        /\ cov' = IF skip THEN Bump(cov, "skipped") ELSE Bump(Bump(cov, "records"), res.tag)
        /\ IF l = Len(Trace) THEN PrintT(<<"COVERAGE", ToJson(cov')>>) ELSE TRUE
  /\ l' = l + 1

TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
