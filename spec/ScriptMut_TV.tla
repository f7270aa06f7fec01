---------------------------- MODULE ScriptMut_TV ----------------------------
(* Validates recorded mutation histories of the real Script against ScriptMut.*)
EXTENDS ScriptMut, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov

\* The observed object, compared piece by piece.
View(s) == [secs |-> s.secs, sfmt |-> s.sfmt, efmt |-> s.efmt, track |-> s.track, chg |-> s.chg, n |-> Len(s.chg)]
RECURSIVE DiffSecs(_, _, _)
DiffSecs(e, o, i) ==
  IF i > Len(e) \/ i > Len(o) THEN "number of sections: expected " \o ToString(Len(e)) \o " observed " \o ToString(Len(o))
  ELSE IF e[i] # o[i] THEN "section " \o ToString(i) \o ": expected " \o ToString(e[i]) \o " observed " \o ToString(o[i])
  ELSE DiffSecs(e, o, i + 1)
State(s, v) == IF s.secs # v.secs THEN DiffSecs(s.secs, v.secs, 1)
               ELSE FirstDiff(<< <<"styles format", s.sfmt, v.sfmt>>, <<"events format", s.efmt, v.efmt>>, <<"tracking", s.track, v.track>>,
                                 <<"changes", s.chg, v.chg>>, <<"number of changes", Len(s.chg), v.n>> >>)
\* A section reported as "same" is what was observed at the step before.
Full(v, last) == [v EXCEPT !.secs = [i \in 1..Len(v.secs) |-> IF v.secs[i].k = "same" THEN last[i] ELSE v.secs[i]]]
Out(z, res, r, tag) ==
  LET v == Full(r.v, z.last)
      e == IF res # r.res THEN "result: expected " \o ToString(res) \o " observed " \o ToString(r.res) ELSE State(z.s, v)
  IN [st |-> [z EXCEPT !.last = v.secs], err |-> e, tag |-> tag]
Says(w) == IF w.err # "" THEN [err |-> w.err] ELSE [err |-> "", k |-> w.k, d |-> w.d]
Ok(e) == IF e = "" THEN "done" ELSE e
Reset(r) == LET p == Parse(r.t)  s == Mut0(p, [i \in 1..Len(p.secs) |-> r.v.secs[i].at])
                x == IF Len(r.v.secs) # Len(p.secs) THEN "sections read" ELSE State(s, r.v)
            IN [st |-> [s |-> s, snap |-> s, last |-> r.v.secs], err |-> x, tag |-> "reset"]
Step(z, r) ==
  LET s == z.s IN
  CASE r.op = "update" -> LET u == Update(s, r.at, r.line, r.no) IN
         Out([z EXCEPT !.s = u.st], IF u.err # "" THEN [err |-> u.err] ELSE [err |-> "", old |-> u.old], r, "update " \o Ok(u.err))
    [] r.op = "says" -> Out(z, Says(LineSays(s, r.line)), r, "says " \o Ok(LineSays(s, r.line).err))
    [] r.op = "says_in" -> Out(z, Says(LineSaysIn(s, r.k, r.line)), r, "says in " \o Ok(LineSaysIn(s, r.k, r.line).err))
    [] r.op = "batch" -> LET b == Batch(s, r.ops) IN Out([z EXCEPT !.s = b.st], [done |-> b.done, failed |-> b.failed], r,
                                                      "batch " \o (IF b.failed = <<>> THEN "done" ELSE IF b.done = <<>> THEN "refused" ELSE "partly"))
    [] r.op = "atomic" -> LET a == Atomic(s, r.ops, r.styles, r.events) IN Out([z EXCEPT !.s = a.st], [err |-> a.err], r, "atomic " \o Ok(a.err))
    [] r.op = "add" -> LET a == AddItems(s, r.k, <<r.d>>) IN Out([z EXCEPT !.s = a.st], [from |-> a.from], r, "add " \o r.k)
    [] r.op = "adds" -> LET a == AddItems(s, r.k, r.ds) IN Out([z EXCEPT !.s = a.st], [ix |-> [i \in 1..Len(r.ds) |-> a.from + i - 1]], r, "adds " \o r.k)
    [] r.op = "add_section" -> Out([z EXCEPT !.s = AddSection(s, r.k, r.ds)], [from |-> Len(s.secs)], r, "add_section")
    [] r.op = "remove_section" ->
         IF r.sec < Len(s.secs)
         THEN Out([z EXCEPT !.s = RemoveSection(s, r.sec)], [err |-> "", k |-> s.secs[r.sec + 1].k], r, "remove_section")
         ELSE Out(z, [err |-> "IndexOutOfBounds"], r, "remove_section none")
    [] r.op = "sfmt" -> Out([z EXCEPT !.s.sfmt = <<r.f>>], [ok |-> TRUE], r, "format")
    [] r.op = "efmt" -> Out([z EXCEPT !.s.efmt = <<r.f>>], [ok |-> TRUE], r, "format")
    [] r.op = "track" -> Out([z EXCEPT !.s.track = r.on], [ok |-> TRUE], r, "track")
    [] r.op = "forget" -> Out([z EXCEPT !.s.chg = <<>>], [ok |-> TRUE], r, "forget")
    [] r.op = "snap" -> Out([z EXCEPT !.snap = s], [ok |-> TRUE], r, "snap")
    [] r.op = "restore" -> Out([z EXCEPT !.s = z.snap], [ok |-> TRUE], r, "restore")
    [] r.op = "diff" -> Out(z, [d |-> Diff(s, z.snap)], r, IF Diff(s, z.snap) = <<>> THEN "diff none" ELSE "diff some")
INSTANCE TraceRun
=============================================================================
