----------------------------- MODULE AssParse_TV -----------------------------
(* Validates what the real reader and writer did against AssParse.            *)
(* C01 what was read and which lines were rejected, C02 where things are,     *)
(* C03 that writing the document and reading it back loses nothing.           *)
EXTENDS AssParse, Json, IOUtils
Prop == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov

Kinds(p) == [i \in 1..Len(p.secs) |-> p.secs[i].k]
Sevs(iss) == [i \in 1..Len(iss) |-> iss[i].sev]

RECURSIVE DiffSecs(_, _, _)
DiffSecs(e, o, i) == IF i > Len(e) THEN "" ELSE IF e[i] # o[i] THEN
     "section " \o ToString(i) \o " (" \o e[i].k \o "): expected " \o ToString(e[i].items) \o " observed " \o ToString(o[i].items)
   ELSE DiffSecs(e, o, i + 1)

C01(p, r) ==
  LET d == DocData(p) IN
  IF ~r.ok THEN "rejected"
  ELSE IF [i \in 1..Len(r.doc.secs) |-> r.doc.secs[i].k] # Kinds(p)
       THEN "sections: expected " \o ToString(Kinds(p)) \o " observed " \o ToString([i \in 1..Len(r.doc.secs) |-> r.doc.secs[i].k])
  ELSE IF d.secs # r.doc.secs THEN DiffSecs(d.secs, r.doc.secs, 1)
  ELSE FirstDiff(<< <<"version", d.ver, r.doc.ver>>, <<"styles format", d.sfmt, r.doc.sfmt>>,
                    <<"events format", d.efmt, r.doc.efmt>>, <<"issues", Sevs(p.iss), Sevs(r.iss)>> >>)

\* first section (1-based) whose extent covers offset o, 0 if none
Covers(b, o) == b # <<>> /\ b[1] <= o /\ o < b[2]
RECURSIVE HitFrom(_, _, _)
HitFrom(bs, o, i) == IF i > Len(bs) THEN 0 ELSE IF Covers(bs[i], o) THEN i ELSE HitFrom(bs, o, i + 1)
RECURSIVE BadProbe(_, _, _)
BadProbe(bs, at, i) == IF i > Len(at) THEN "" ELSE
   LET h == HitFrom(bs, at[i][1], 1) IN
   IF h # at[i][2] THEN "offset " \o ToString(at[i][1]) \o " is in section " \o ToString(h) \o ", observed " \o ToString(at[i][2])
   ELSE BadProbe(bs, at, i + 1)
NonEmpty(b) == b # <<>>

C02(p, r) ==
  LET ls == ParseLines(r.t)
      \* the extent of each section; a [Script Info] section reports its own
      bs == [i \in 1..Len(p.secs) |->
               LET s == p.secs[i]  sp == SecSpans(s) IN
               IF s.k = "info" THEN SubSeq(r.info[i], 1, 2)
               ELSE IF sp = <<>> THEN <<>> ELSE <<sp[1][1], sp[Len(sp)][2]>>]
      badinfo == {i \in 1..Len(p.secs) : p.secs[i].k = "info" /\
                    LET s == p.secs[i]  o == r.info[i] IN
                    ~(/\ o[1] = InfoFrom(ls, r.t, s) /\ o[2] >= InfoLast(ls, r.t, s)
                      /\ o[2] <= InfoTo(ls, r.t, s) /\ o[3] = InfoLineNo(ls, r.t, s))}
  IN
  IF ~r.ok \/ Len(r.doc.secs) # Len(p.secs) THEN "sections differ in number"
  ELSE IF DocSpans(p) # r.spans THEN "spans: expected " \o ToString(DocSpans(p)) \o " observed " \o ToString(r.spans)
  ELSE IF p.iss # r.iss THEN "issues: expected " \o ToString(p.iss) \o " observed " \o ToString(r.iss)
  ELSE IF badinfo # {} THEN "extent of [Script Info]: observed " \o ToString(r.info)
  ELSE IF SelectSeq(bs, NonEmpty) # r.bounds THEN "boundaries: expected " \o ToString(bs) \o " observed " \o ToString(r.bounds)
  ELSE BadProbe(bs, r.at, 1)

C03(p, r) ==
  IF ~Uniform(p) THEN ""
  ELSE LET q == DocData(Parse(r.ser))  d == DocData(p) IN
       IF q.secs # d.secs THEN "written text says something else: " \o
            (IF Len(q.secs) # Len(d.secs) THEN "number of sections" ELSE DiffSecs(d.secs, q.secs, 1))
       ELSE FirstDiff(<< <<"written version", d.ver, q.ver>>, <<"written styles format", d.sfmt, q.sfmt>>,
                         <<"written events format", d.efmt, q.efmt>>,
                         <<"read back", r.doc, r.doc2>>, <<"written again the same", TRUE, r.same>> >>)

Tag(p) == IF p.secs = <<>> THEN "nothing" ELSE IF p.iss # <<>> THEN "with issues" ELSE "clean"
Reset(r) ==
  LET p == Parse(r.t)
      e == CASE Prop = "C01" -> C01(p, r) [] Prop = "C02" -> C02(p, r) [] OTHER -> C03(p, r)
  IN [st |-> [ok |-> TRUE], err |-> e,
      tag |-> IF Prop = "C03" THEN (IF Uniform(p) THEN Tag(p) ELSE "mixed formats") ELSE Tag(p)]
Step(s, r) == Reset(r)
INSTANCE TraceRun
=============================================================================
