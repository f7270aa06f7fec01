----------------------------- MODULE TagText_TV -----------------------------
(* Validates recorded analyses of event text against TagText.                 *)
EXTENDS TagText, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
Cmp(e, o) == IF e = o THEN "" ELSE "expected " \o ToString(e) \o " observed " \o ToString(o)
TagsOf(ts) == [i \in 1..Len(ts) |-> <<ts[i].name, ts[i].args, ts[i].cost, ts[i].at>>]
DiagOf(ds) == [i \in 1..Len(ds) |-> <<ds[i].at, ds[i].kind, ds[i].span>>]
Shape(a) == IF ~a.ok THEN [ok |-> FALSE]
            ELSE [ok |-> TRUE, plain |-> a.plain, chars |-> Chars(a.plain), lines |-> LineCount(a.plain), bidi |-> Bidi(a.plain),
                  complex |-> Complex(a.plain), tags |-> TagsOf(a.tags), diag |-> DiagOf(a.diag)]
Pair(o) == <<TagsOf(o.tags), DiagOf(o.diag)>>
TagOf(a) == IF ~a.ok THEN "too deep" ELSE IF a.diag # <<>> THEN (IF \E i \in 1..Len(a.diag) : a.diag[i].kind = "MalformedTag" THEN "malformed" ELSE "empty tag")
            ELSE IF a.draw THEN "drawing" ELSE IF a.tags # <<>> THEN "tags" ELSE "plain"
Check(r) ==
  IF r.k = "text"
  THEN LET p == Analyze(r.s, NoHandlers)  h == Analyze(r.s, r.hs) IN
       <<FirstDiff(<< <<"analyze", Shape(p), r.a>>, <<"analyze_with_registry", Shape(h), r.r>>, <<"no registry", Shape(p), r.n>> >>), "text " \o TagOf(h)>>
  ELSE IF r.k = "breaks"
  THEN LET e == LineBreaks(r.s, r.draw) IN <<Cmp(<<e.text, e.breaks, e.nbsp>>, r.o), "breaks " \o (IF e.breaks = <<>> THEN "none" ELSE "some")>>
  ELSE LET p == Block(r.s, r.base, 1, NoTags, NoHandlers)  h == Block(r.s, r.base, 1, NoTags, r.hs) IN
       <<FirstDiff(<< <<"block", Pair(p), r.a>>, <<"block with registry", Pair(h), r.r>>, <<"block without registry", Pair(p), r.n>> >>),
         "block " \o (IF h.diag # <<>> THEN "diagnosed" ELSE IF h.tags # <<>> THEN "tags" ELSE "empty")>>
Reset(r) == LET c == Check(r) IN [st |-> [ok |-> TRUE], err |-> c[1], tag |-> c[2]]
Step(s, r) == Reset(r)
INSTANCE TraceRun
=============================================================================
