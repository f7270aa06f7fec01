----------------------------- MODULE DocCmd_TV -----------------------------
(* Validates what the real style, line and script-information operations did   *)
(* against DocCmd.  E14 judges styles and lines, E15 script information.        *)
EXTENDS DocCmd, Json, IOUtils
Prop == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov

Owner(o) == IF o \in {"iset", "idel", "iget", "iall", "res", "setres", "wrap", "scaled"} THEN "E15" ELSE "E14"
Judged(o) == Prop = Owner(o)
How(x) == IF ~x.ok THEN "/refused" ELSE IF x.n = 0 THEN "/nothing" ELSE IF x.n = 1 THEN "/one" ELSE "/many"
ChangeStep(s, r) ==
  LET x == Change(s.t, r)
      e == FirstDiff(<< <<"outcome", x.ok, r.ok>>, <<"text", x.t, r.after>>,
                        <<"change reported", x.n > 0, IF r.changed \in {0, 1} THEN r.changed = 1 ELSE x.n > 0>> >>)
      mine == Judged(r.op)
  IN [st |-> [t |-> IF mine THEN x.t ELSE r.after, past |-> IF (x.n > 0 /\ (mine \/ x.t = r.after)) \/ (~mine /\ r.after # s.t) THEN Append(s.past, s.t) ELSE s.past],
      err |-> IF mine THEN e ELSE "", tag |-> r.op \o How(x)]
UndoStep(s, r) ==
  LET n == Len(s.past)  want == IF n = 0 THEN s.t ELSE s.past[n] IN
  [st |-> [t |-> want, past |-> IF n = 0 THEN <<>> ELSE SubSeq(s.past, 1, n - 1)],
   err |-> FirstDiff(<< <<"undone", n > 0, r.ok>>, <<"text after undo", want, r.after>> >>), tag |-> "undo"]
\* two settings, two undo steps
SetResStep(s, r) ==
  LET x == InfoSet(s.t, Parse(s.t), KResX, r.w)  y == InfoSet(x.t, Parse(x.t), KResY, r.hh) IN
  [st |-> [t |-> IF Prop = "E15" THEN y.t ELSE r.after, past |-> IF y.ok THEN s.past \o <<s.t, x.t>> ELSE s.past],
   err |-> IF Prop = "E15" THEN FirstDiff(<< <<"outcome", y.ok, r.ok>>, <<"text", y.t, r.after>> >>) ELSE "", tag |-> "setres" \o How(y)]
ReadStep(s, r) ==
  LET p == Parse(s.t)
      some == FirstSec(p, "info") # 0
      v == CASE r.op = "iget" -> [ok |-> some \/ r.via = "doc", got |-> InfoGet(p, r.key)]
             [] r.op = "iall" -> [ok |-> some, got |-> InfoAll(p)]
             [] r.op = "res" -> LET x == Resolution(p) IN [x EXCEPT !.ok = @ /\ some]
             [] r.op = "wrap" -> LET x == WrapStyle(p) IN [x EXCEPT !.ok = @ /\ some]
             [] r.op = "scaled" -> LET x == Scaled(p) IN [x EXCEPT !.ok = @ /\ some]
  IN [st |-> s, err |-> IF Prop = "E15" THEN FirstDiff(<< <<"outcome", v.ok, r.ok>>, <<"what is read", v.got, r.got>> >>) ELSE "",
      tag |-> r.op \o (IF ~v.ok THEN "/refused" ELSE IF v.got = <<>> THEN "/none" ELSE "")]

Reset(r) == [st |-> [t |-> r.t, past |-> <<>>], err |-> "", tag |-> "reset"]
Step(s, r) == CASE r.op = "undo" -> UndoStep(s, r)
                [] r.op = "setres" -> SetResStep(s, r)
                [] r.op \in {"iget", "iall", "res", "wrap", "scaled"} -> ReadStep(s, r)
                [] OTHER -> ChangeStep(s, r)
INSTANCE TraceRun
=============================================================================
