----------------------------- MODULE ExtLife_TV -----------------------------
EXTENDS ExtLife, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
StateOf(m, n) == IF n \in Names(m) THEN m.es[At(m, n)].state ELSE ""
Out(a, r, tag) ==
  LET m == a.m  cs == {m.cmds[i][1] : i \in 1..Len(m.cmds)}
      want == <<StateOf(m, "a"), StateOf(m, "b"), StateOf(m, "c")>>
      data == <<m.data["a"], m.data["b"], m.data["c"], m.data["caller"]>> IN
  [st |-> m, tag |-> tag,
   err |-> IF r.res # a.res \/ r.val # a.val THEN "expected " \o ToString(<<a.res, a.val>>) \o " observed " \o ToString(<<r.res, r.val>>)
           ELSE IF r.log # a.log THEN "called: expected " \o ToString(a.log) \o " observed " \o ToString(r.log)
           ELSE IF SetOf(r.exts) # Names(m) \/ Len(r.exts) # Len(m.es) THEN "extensions: expected " \o ToString(Names(m)) \o " observed " \o ToString(r.exts)
           ELSE IF SetOf(r.listed) # cs \/ Len(r.listed) # Cardinality(cs) THEN "commands: expected " \o ToString(cs) \o " observed " \o ToString(r.listed)
           ELSE IF r.states # want THEN "states: expected " \o ToString(want) \o " observed " \o ToString(r.states)
           ELSE IF r.data # data \/ r.cfg # <<m.k, m.q>> THEN "data: expected " \o ToString(<<data, m.k, m.q>>) \o " observed " \o ToString(<<r.data, r.cfg>>) ELSE ""]
Reset(r) == Out(Ans(NoExts, "", <<>>, <<>>), r, "reset")
Step(m, r) == LET a == Do(m, r) IN Out(a, r, r.op \o "/" \o (IF a.res # "" THEN "refused" ELSE "ok"))
INSTANCE TraceRun
=============================================================================
