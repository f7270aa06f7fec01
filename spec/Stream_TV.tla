------------------------------ MODULE Stream_TV ------------------------------
EXTENDS Stream, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov

Same(s, r) == FirstDiff(<< <<"line number", s.ln.n, r.line>>, <<"section", s.ln.sec, r.sec>>,
   <<"state", IF s.ln.at = "top" THEN "top" ELSE s.ln.at \o " " \o s.ln.kind, r.state>>,
   <<"events format", s.ln.efmt, r.efmt>>, <<"styles format", s.ln.sfmt, r.sfmt>> >>)
Ev(st2, err, tag) == [st |-> st2, err |-> err, tag |-> tag]
Reset(r) == Ev(New, "", "reset")
Step(s, r) ==
  CASE r.op = "feed" ->
         LET no == Refused(s, r.n)  q == Feed(s, r.n) IN
         Ev(q, IF r.ok = no THEN "accepted: expected " \o ToString(~no)
               ELSE IF Same(q, r) # "" THEN Same(q, r)
               ELSE IF r.buf # q.buf THEN "held back: expected " \o ToString(q.buf) \o " observed " \o ToString(r.buf) ELSE "",
            "feed/" \o (IF no THEN "refused" ELSE IF q.pend # <<>> THEN "character cut" ELSE IF q.buf # <<>> THEN "line cut"
                        ELSE IF s.cr /\ r.n # <<>> /\ r.n[1] = 10 THEN "line end cut" ELSE "whole"))
    [] r.op = "line" -> LET q == [s EXCEPT !.ln = ReadLine(s.ln, r.n)] IN Ev(q, Same(q, r), "line")
    [] r.op = "clear" -> Ev(New, IF Same(New, r) # "" THEN Same(New, r) ELSE IF r.buf # <<>> THEN "text kept" ELSE "", "clear")
    [] r.op = "finish" -> Ev(New, IF r.ok # CanFinish(s) THEN "finish: expected " \o ToString(CanFinish(s)) ELSE "",
                             "finish/" \o ToString(CanFinish(s)))
INSTANCE TraceRun
=============================================================================
