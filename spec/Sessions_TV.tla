---------------------------- MODULE Sessions_TV ----------------------------
EXTENDS Sessions, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
SetOf(x) == {x[i] : i \in 1..Len(x)}
Out(d, r, tag) ==
  LET z == d.z IN
  [st |-> z, tag |-> tag,
   err |-> IF r.res # d.res THEN "result: expected " \o d.res \o " observed " \o r.res
           ELSE IF r.val # d.val \/ r.gone # d.gone THEN "answer: expected " \o ToString(<<d.val, d.gone>>) \o " observed " \o ToString(<<r.val, r.gone>>)
           ELSE IF SetOf(r.ids) # Ids(z) \/ Len(r.ids) # Len(z.ss) THEN "sessions: expected " \o ToString(Ids(z)) \o " observed " \o ToString(r.ids)
           ELSE IF \E i \in 1..Len(r.ids) : r.texts[i] # z.ss[At(z, r.ids[i])].t THEN "texts: " \o ToString(r.texts)
           ELSE IF r.active # z.active THEN "active: expected " \o ToString(z.active) \o " observed " \o ToString(r.active)
           ELSE IF <<r.n, r.mem, r.resets>> # <<Len(z.ss), 0, z.resets>> THEN "accounting: expected " \o ToString(Len(z.ss)) \o " observed " \o ToString(r.n)
           ELSE ""]
Reset(r) == Out(Fine(NoSessions(r.max, r.auto)), r, "reset")
\* a cleanup that was too slow to be judged: take over what is left
Late(z, r) == [st |-> [z EXCEPT !.ss = SelectSeq(@, LAMBDA s : s.id \in SetOf(r.ids)), !.active = r.active], tag |-> "late", err |-> ""]
Step(z, r) == IF r.late THEN Late(z, r)
              ELSE LET d == Do(z, r) IN Out(d, r, r.op \o "/" \o (IF r.op = "cleanup" THEN r.age ELSE d.res))
INSTANCE TraceRun
=============================================================================
