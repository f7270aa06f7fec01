------------------------------ MODULE Draw_TV ------------------------------
EXTENDS Draw, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
Kinds(cs) == IF cs = Bad THEN "error" ELSE IF cs = <<>> THEN "empty" ELSE cs[Len(cs)][1]
Check(r) ==
  LET cs == TLCEval(Commands(r.s))  o == TLCEval(Outline(cs)) IN
  [st |-> [ok |-> TRUE], tag |-> "draw/" \o Kinds(cs) \o (IF o = <<>> THEN "/nothing" ELSE "/outline"),
   err |-> IF r.cmds # cs THEN "commands: expected " \o ToString(cs) \o " observed " \o ToString(r.cmds)
           ELSE IF r.path # o THEN "outline: expected " \o ToString(o) \o " observed " \o ToString(r.path) ELSE ""]
Reset(r) == [st |-> [ok |-> TRUE], err |-> "", tag |-> "reset"]
Step(s, r) == Check(r)
INSTANCE TraceRun
=============================================================================
