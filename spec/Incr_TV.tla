------------------------------ MODULE Incr_TV ------------------------------
(* Validates editing sessions of the real incremental reader against Incr.    *)
EXTENDS Incr, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov

Sevs(iss) == [i \in 1..Len(iss) |-> [sev |-> iss[i].sev, line |-> iss[i].line]]
\* extents of the sections; a [Script Info] section reports its own
Extents(p, info) == [i \in 1..Len(p.secs) |->
   LET s == p.secs[i]  sp == SecSpans(s) IN
   IF s.k = "info" THEN SubSeq(info[i], 1, 2) ELSE IF sp = <<>> THEN <<>> ELSE <<sp[1][1], sp[Len(sp)][2]>>]
Full(p, r) == LET d == DocData(p) IN
  FirstDiff(<< <<"sections", d.secs, r.doc.secs>>, <<"version", d.ver, r.doc.ver>>, <<"styles format", d.sfmt, r.doc.sfmt>>,
               <<"events format", d.efmt, r.doc.efmt>>, <<"spans", DocSpans(p), r.spans>>,
               <<"issues", Sevs(p.iss), r.iss>> >>)
AsSet(x) == {x[i] : i \in 1..Len(x)}

Reset(r) == LET p == Parse(r.t) IN
  [st |-> [t |-> r.t, p |-> p, info |-> r.info], err |-> Full(p, r), tag |-> "reset"]
Step(s, r) ==
  LET t2 == Replace(s.t, r.s, r.e, r.n)
      p2 == Parse(t2)
      a == DocData(s.p).secs  b == DocData(p2).secs
      d == Delta(a, b)
      x == Extents(s.p, s.info)
      hit == SelectSeq([i \in 1..Len(x) |-> IF Touches(x[i], r.s, r.e) THEN s.p.secs[i].k ELSE ""], LAMBDA k : k # "")
      full == Full(p2, r)
      \* parse_partial reports sections as text: each must be the text of the section it stands for
      deltaErr == FirstDiff(<<
         <<"source", t2, r.src>>,
         <<"affected sections", hit, r.hit>>,
         <<"delta added", d.added, r.added>>, <<"delta modified", d.modified, r.modified>>,
         <<"delta removed", d.removed, r.removed>>, <<"delta issues", Sevs(p2.iss), r.dissues>>,
         <<"delta empty", d.added = <<>> /\ d.modified = <<>> /\ d.removed = <<>> /\ r.alliss = 0, r.dempty>>,
         <<"partial added", [i \in 1..Len(d.added) |-> TRUE], r.padded>>,
         <<"partial modified", [i \in 1..Len(d.modified) |-> <<d.modified[i][1], TRUE>>], r.pmodified>>,
         <<"partial removed", d.removed, r.premoved>>, <<"partial issues", Sevs(p2.iss), r.pissues>>,
         <<"ranges", [i \in 1..Len(r.ranges) |-> Adjust(r.ranges[i][1], r.ranges[i][2], r.s, r.e, Len(r.n))], r.adjusted>>,
         <<"line number", LineOf(s.t, r.s), r.lnum>>,
         <<"line range", IF r.s < Len(s.t) THEN <<LineOf(s.t, r.s), LineOf(s.t, r.e)>> ELSE r.lrange, r.lrange>> >>)
  IN [st |-> [t |-> t2, p |-> p2, info |-> r.info],
      err |-> IF full # "" THEN full ELSE deltaErr,
      tag |-> "edit/" \o (IF d.added # <<>> \/ d.removed # <<>> THEN "sections change"
                          ELSE IF d.modified # <<>> THEN "modified" ELSE IF hit = <<>> THEN "outside" ELSE "no effect")]
INSTANCE TraceRun
=============================================================================
