----------------------------- MODULE TagArgs_TV -----------------------------
(* Validates the built-in tag handlers against TagArgs: each alone, and all   *)
(* of them reading an override block that holds one tag.                      *)
EXTENDS TagArgs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
TagsOf(ts) == [i \in 1..Len(ts) |-> <<ts[i].name, ts[i].args, ts[i].cost, ts[i].at>>]
DiagOf(ds) == [i \in 1..Len(ds) |-> <<ds[i].at, ds[i].kind, ds[i].span>>]
Known(nb) == \E n \in BuiltIn : B(n) = nb
NameOf(nb) == CHOOSE n \in BuiltIn : B(n) = nb
Verdict(nb, args) == IF Accepts(NameOf(nb), args) THEN "processed" ELSE "failed"
Check(r) ==
  IF r.k = "names" THEN <<FirstDiff(<< <<"names", {B(n) : n \in BuiltIn}, {r.names[i] : i \in 1..Len(r.names)}>>,
                                       <<"number", Cardinality(BuiltIn), Len(r.names)>> >>), "names">>
  ELSE IF r.k = "args"
  THEN LET e == Accepts(r.name, r.s) IN
       <<FirstDiff(<< <<r.name \o " accepts", e, r.ok>>, <<r.name \o " validates", e, r.valid>> >>), Kind[KeyOf[r.name]] \o (IF e THEN " yes" ELSE " no")>>
  ELSE LET p == Block(r.s, 0, 1, NoTags, NoHandlers)
           hs == IF Len(p.tags) = 1 /\ Known(p.tags[1].name) THEN << <<p.tags[1].name, Verdict(p.tags[1].name, p.tags[1].args)>> >> ELSE <<>>
           e == Block(r.s, 0, 1, NoTags, hs) IN
       <<IF Len(p.tags) > 1 THEN "" ELSE FirstDiff(<< <<"tags", TagsOf(e.tags), r.o[1]>>, <<"diagnostics", DiagOf(e.diag), r.o[2]>> >>),
         "block " \o (IF hs = <<>> THEN "unknown" ELSE hs[1][2])>>
Reset(r) == LET c == Check(r) IN [st |-> [ok |-> TRUE], err |-> c[1], tag |-> c[2]]
Step(s, r) == Reset(r)
INSTANCE TraceRun
=============================================================================
