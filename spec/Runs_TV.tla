------------------------------ MODULE Runs_TV -------------------------------
EXTENDS Runs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
Flat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
Lens(ss) == [k \in 1..Len(ss) |-> Len(ss[k])]
Judge(r) ==
  LET ws == TLCEval(Words(r))
      ex == TLCEval([k \in 1..Len(ws) |-> Look(r, ws[k].z)])
      want == TLCEval(Spans([k \in 1..Len(ws) |-> Len(ws[k].x)], 0))
      got == TLCEval(Spans([k \in 1..Len(r.runs) |-> Len(r.runs[k].text)], 0))
      pairs == {<<a, b>> \in (1..Len(ws)) \X (1..Len(r.runs)) : want[a][1] <= got[b][2] /\ got[b][1] <= want[a][2]}
      off == {p \in pairs : Differ(ex[p[1]], r.runs[p[2]]) # ""} IN
  [err |-> IF Flat([k \in 1..Len(ws) |-> ws[k].x]) # Flat([k \in 1..Len(r.runs) |-> r.runs[k].text]) THEN "not the text of the event"
           ELSE IF (r.vec > 0) # (Shapes(r) # <<>>) THEN "drawings: " \o ToString(r.vec)
           ELSE IF off = {} THEN "" ELSE LET p == CHOOSE x \in off : \A y \in off : x[1] <= y[1]  d == Differ(ex[p[1]], r.runs[p[2]]) IN
             d \o " of piece " \o ToString(p[1]) \o ": expected " \o ToString(ex[p[1]]) \o " observed " \o ToString(r.runs[p[2]]),
   tags |-> UNION {{r.text[i].ts[k].n : k \in 1..Len(r.text[i].ts)} : i \in 1..Len(r.text)}, n |-> Len(ws)]
Judged(r) == LET j == TLCEval(Judge(r)) IN
  [st |-> [ok |-> TRUE], err |-> j.err,
   tag |-> IF j.n = 0 THEN "runs/none" ELSE
     "runs/" \o (IF "r" \in j.tags THEN "reset" ELSE IF "t" \in j.tags THEN "animated" ELSE IF j.tags \cap ToSet(Karaoke) # {} THEN "karaoke"
                 ELSE IF j.tags \cap {"fad", "fade"} # {} THEN "faded" ELSE IF j.tags = {} THEN "plain" ELSE "overridden")
            \o (IF Shapes(r) # <<>> THEN "+drawing" ELSE "")]
Reset(r) == [st |-> [ok |-> TRUE], err |-> "", tag |-> "reset"]
Step(s, r) == Judged(r)
INSTANCE TraceRun
=============================================================================
