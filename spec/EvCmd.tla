------------------------------- MODULE EvCmd -------------------------------
(* Editing and querying the events of a document by index.  The index of an  *)
(* event is its place among the events the reader reports, over all sections. *)
(* A command replaces the named fields of the named events (or whole lines)   *)
(* and leaves every other byte of the document alone.                         *)
EXTENDS AssParse
C == INSTANCE Codec
MinR(a, b) == IF a < b THEN a ELSE b

RECURSIVE EventsIn(_, _)
EventsIn(secs, i) == IF i > Len(secs) THEN <<>>
                     ELSE (IF secs[i].k = "events" THEN secs[i].items ELSE <<>>) \o EventsIn(secs, i + 1)
Events(p) == EventsIn(p.secs, 1)
HasEvents(p) == \E i \in 1..Len(p.secs) : p.secs[i].k = "events"

\* --- an event as a line of text ----------------------------------------------
Raw(t, ev) == SubSeq(t, ev.span.s + 1, ev.span.e)
TypeAt(raw) == SkipWs(raw, 1)
\* A range <<a, b>> of raw covers a .. b-1; without the white space around it.
TrimRange(raw, r) ==
  LET part == SubSeq(raw, r[1], r[2] - 1)  k == SkipWs(part, 1)
  IN IF k > Len(part) THEN <<r[2], r[2]>> ELSE <<r[1] + k - 1, r[1] + k - 1 + Len(Trim(part))>>
RECURSIVE PartsFrom(_, _, _, _)
PartsFrom(raw, i, n, acc) ==
  LET k == IF Len(acc) + 1 >= n THEN 0 ELSE Find(raw, COMMA, i)
  IN IF k = 0 THEN Append(acc, <<i, Len(raw) + 1>>) ELSE PartsFrom(raw, k + 1, n, Append(acc, <<i, k>>))
Parts(raw, ev) == PartsFrom(raw, TypeAt(raw) + Len(ev.ty) + 1, IF Pos(ev.fmt, NText) # 0 THEN Len(ev.fmt) ELSE 10, <<>>)
NoRange == <<0, 0>>
FieldAt(raw, ev, name) == LET i == Pos(ev.fmt, name)  ps == Parts(raw, ev)
                          IN IF i = 0 \/ i > Len(ps) THEN NoRange ELSE TrimRange(raw, ps[i])
ValueAt(raw, r) == SubSeq(raw, r[1], r[2] - 1)

NStart == B("Start")
NEnd == B("End")
NEffect == B("Effect")
\* An effect directly before the text may hold commas inside parentheses.
RECURSIVE OuterComma(_, _, _)
OuterComma(raw, i, depth) ==
  IF i > Len(raw) THEN 0
  ELSE IF raw[i] = COMMA /\ depth = 0 THEN i
  ELSE OuterComma(raw, i + 1, IF raw[i] = 40 THEN depth + 1 ELSE IF raw[i] = 41 /\ depth > 0 THEN depth - 1 ELSE depth)
EffectText(raw, ev) ==
  LET e == Pos(ev.fmt, NEffect)  x == Pos(ev.fmt, NText)  n == Len(ev.fmt)
      from == Parts(raw, ev)[e][1]
      k == OuterComma(raw, from, 0)
  IN IF e # 0 /\ x = n /\ e = n - 1 /\ k # 0 THEN <<TrimRange(raw, <<from, k>>), TrimRange(raw, <<k + 1, Len(raw) + 1>>)>>
     ELSE <<FieldAt(raw, ev, NEffect), FieldAt(raw, ev, NText)>>

\* Replacements <<a, b, bytes>> of disjoint ranges of t, in order of position.
Before(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
RECURSIVE SpliceFrom(_, _, _, _)
SpliceFrom(t, rs, i, at) == IF i > Len(rs) THEN From(t, at)
                            ELSE SubSeq(t, at, rs[i][1] - 1) \o rs[i][3] \o SpliceFrom(t, rs, i + 1, rs[i][2])
Splice(t, rs) == SpliceFrom(t, SortSeq(rs, Before), 1, 1)
\* The whole line of an event: its indentation and its newline belong to it.
RECURSIVE LineFrom(_, _)
LineFrom(t, i) == IF i = 1 \/ t[i - 1] = NL THEN i ELSE LineFrom(t, i - 1)
WholeLine(t, ev) == <<LineFrom(t, ev.span.s + 1), MinR(ev.span.e + 2, Len(t) + 1)>>
At(ev) == <<ev.span.s + 1, ev.span.e + 1>>

\* --- times -------------------------------------------------------------------
\* v moved by n centiseconds within [0, 2^32-1]
Shift(v, n) == LET c == v[2] + (n % C!HourCs)
                   w == <<v[1] + (n \div C!HourCs) + (c \div C!HourCs), c % C!HourCs>>
               IN IF w[1] < 0 THEN <<0, 0>> ELSE IF C!Leq(w, C!MaxTime) THEN w ELSE C!MaxTime
Less(a, b) == ~C!Leq(b, a)
MaxT(a, b) == IF C!Leq(a, b) THEN b ELSE a
MinT(a, b) == IF C!Leq(a, b) THEN a ELSE b
TimeOf(raw, r) == IF r = NoRange THEN C!Bad ELSE C!ParseTime(ValueAt(raw, r))

\* --- commands: [ok, t, n] with n the number of events changed -------------------
Fail(t) == [ok |-> FALSE, t |-> t, n |-> 0]
Done(t, n) == [ok |-> TRUE, t |-> t, n |-> n]
\* The events a list of indices (0-based) names; an empty list names them all.
Named(evs, idx) == {k \in 1..Len(evs) : idx = <<>> \/ \E j \in 1..Len(idx) : idx[j] = k - 1}
\* Each named event k for which Make(k) is not <<>> has the replacements Make(k) made in it.
Rewrite(t, evs, S, make) ==
  LET K == {k \in S : make[k] # <<>>}
      line(k) == <<At(evs[k])[1], At(evs[k])[2], Splice(Raw(t, evs[k]), make[k])>>
      all == SelectSeq([k \in 1..Len(evs) |-> IF k \in K THEN line(k) ELSE <<0, 0, <<>>>>], LAMBDA x : x[1] > 0)
  IN Done(Splice(t, all), Len(all))

Toggle(t, p, idx) ==
  LET evs == Events(p)
      flip(k) == LET a == TypeAt(Raw(t, evs[k])) IN
                 IF evs[k].ty = "Dialogue" THEN << <<a, a + 8, B("Comment")>> >>
                 ELSE IF evs[k].ty = "Comment" THEN << <<a, a + 7, B("Dialogue")>> >> ELSE <<>>
  IN Rewrite(t, evs, Named(evs, idx), TLCEval([k \in 1..Len(evs) |-> flip(k)]))

Retime(t, p, idx, ds, de) ==
  LET evs == Events(p)
      move(k) == LET raw == Raw(t, evs[k])  a == FieldAt(raw, evs[k], NStart)  b == FieldAt(raw, evs[k], NEnd)
                     u == TimeOf(raw, a)  v == TimeOf(raw, b)
                 IN IF u = C!Bad \/ v = C!Bad THEN <<>>
                    ELSE LET u2 == MinT(Shift(u, ds), Shift(C!MaxTime, -1))
                             v2 == MaxT(Shift(v, de), Shift(u2, 1))
                         IN << <<a[1], a[2], C!FormatTime(u2)>>, <<b[1], b[2], C!FormatTime(v2)>> >>
  IN Rewrite(t, evs, Named(evs, idx), TLCEval([k \in 1..Len(evs) |-> move(k)]))

\* how: "set", "clear", "append", "prepend"
Effect(t, p, idx, how, e) ==
  LET evs == Events(p)
      put(k) == LET raw == Raw(t, evs[k])  r == EffectText(raw, evs[k])[1]  cur == ValueAt(raw, r)
                    new == IF how = "clear" THEN <<>> ELSE IF how = "set" \/ cur = <<>> THEN e
                           ELSE IF how = "append" THEN cur \o <<32>> \o e ELSE e \o <<32>> \o cur
                IN IF Pos(evs[k].fmt, NEffect) = 0 \/ Pos(evs[k].fmt, NText) = 0 THEN <<>> ELSE << <<r[1], r[2], new>> >>
  IN Rewrite(t, evs, Named(evs, idx), TLCEval([k \in 1..Len(evs) |-> put(k)]))

SplitAt(t, p, n, time) ==
  LET evs == Events(p)  v == C!ParseTime(time) IN
  IF v = C!Bad \/ n >= Len(evs) THEN Fail(t)
  ELSE LET ev == evs[n + 1]  raw == Raw(t, ev)
           a == FieldAt(raw, ev, NStart)  b == FieldAt(raw, ev, NEnd)
           u == TimeOf(raw, a)  w == TimeOf(raw, b)
       IN IF u = C!Bad \/ w = C!Bad THEN Fail(t)
          ELSE IF ~(Less(u, v) /\ Less(v, w)) THEN Fail(t)
          ELSE Done(Splice(t, << <<At(ev)[1], At(ev)[2],
                     Splice(raw, << <<b[1], b[2], time>> >>) \o <<NL>> \o Splice(raw, << <<a[1], a[2], time>> >>)>> >>), 1)

MergeTwo(t, p, i, j, sep) ==
  LET evs == Events(p) IN
  IF i >= j \/ j >= Len(evs) THEN Fail(t)
  ELSE LET x == evs[i + 1]  y == evs[j + 1]  rx == Raw(t, x)  ry == Raw(t, y)
           complete(e) == \A f \in {NEffect, NText, NEnd} : Pos(e.fmt, f) # 0
       IN IF ~complete(x) \/ ~complete(y) THEN Fail(t)
          ELSE LET tx == EffectText(rx, x)[2]  ty == EffectText(ry, y)[2]
                   ex == FieldAt(rx, x, NEnd)  ey == FieldAt(ry, y, NEnd)
                   line == Splice(rx, << <<ex[1], ex[2], ValueAt(ry, ey)>>,
                                         <<tx[1], tx[2], ValueAt(rx, tx) \o sep \o ValueAt(ry, ty)>> >>)
               IN Done(Splice(t, << <<At(x)[1], At(x)[2], line>>, WholeLine(t, y) \o << <<>> >> >>), 1)

DeleteOne(t, p, n) == LET evs == Events(p) IN
  IF n >= Len(evs) THEN Fail(t) ELSE Done(Splice(t, << WholeLine(t, evs[n + 1]) \o << <<>> >> >>), 1)
\* Unlike the other lists, an empty one names nothing here.
DeleteMany(t, p, idx) ==
  LET evs == Events(p)
      gone == SelectSeq([k \in 1..Len(evs) |-> IF idx # <<>> /\ k \in Named(evs, idx) THEN WholeLine(t, evs[k]) \o << <<>> >> ELSE <<0, 0, <<>>>>],
                        LAMBDA x : x[1] > 0)
  IN Done(Splice(t, gone), Len(gone))

\* Structured editing: mods is a sequence of <<field, bytes>>, the last one for a field counts.
EditFields == [layer |-> 1, start |-> 2, end |-> 3, style |-> 4, name |-> 5, margin_l |-> 6, margin_r |-> 7,
               margin_v |-> 8, effect |-> 9, text |-> 10]
EditEvent(t, p, n, mods) ==
  LET evs == Events(p) IN
  IF n >= Len(evs) THEN Fail(t)
  ELSE LET ev == evs[n + 1]  raw == Raw(t, ev)
           known == \A i \in 1..Len(mods) : mods[i][1] \in DOMAIN EditFields /\ Pos(ev.fmt, EventNames[EditFields[mods[i][1]]]) # 0
           last == {i \in 1..Len(mods) : \A j \in (i + 1)..Len(mods) : mods[j][1] # mods[i][1]}
           put(i) == IF i \notin last THEN <<0, 0, <<>>>>
                     ELSE FieldAt(raw, ev, EventNames[EditFields[mods[i][1]]]) \o <<mods[i][2]>>
       IN IF ~known THEN Fail(t)
          ELSE Done(Splice(t, << At(ev) \o <<Splice(raw, SelectSeq([i \in 1..Len(mods) |-> put(i)], LAMBDA x : x[1] > 0))>> >>), 1)

\* Every section of events, or none at all: the list commands need one.
Command(t, r) ==
  LET p == Parse(t) IN
  IF r.op = "delmany" /\ r.idx = <<>> THEN Done(t, 0)
  ELSE IF r.op = "edit" THEN EditEvent(t, p, r.n, r.mods)
  ELSE IF ~HasEvents(p) THEN Fail(t)
  ELSE CASE r.op = "toggle"  -> Toggle(t, p, r.idx)
         [] r.op = "retime"  -> Retime(t, p, r.idx, r.ds, r.de)
         [] r.op = "effect"  -> Effect(t, p, r.idx, r.how, r.e)
         [] r.op = "split"   -> SplitAt(t, p, r.n, r.time)
         [] r.op = "merge"   -> MergeTwo(t, p, r.n, r.m, r.sep)
         [] r.op = "delete"  -> DeleteOne(t, p, r.n)
         [] r.op = "delmany" -> DeleteMany(t, p, r.idx)

\* --- queries -------------------------------------------------------------------
\* A filter holds the criteria that apply, each as <<>> or <<value>>.
LowerA(t) == Lower(t)
Like(text, pat, exact) == IF exact THEN Contains(text, pat) ELSE Contains(LowerA(text), LowerA(pat))
Matches(ev, q) ==
  /\ q.ty # <<>> => ev.ty = q.ty[1]
  /\ q.style # <<>> => Like(ev.f[4], q.style[1], q.exact)
  /\ q.speaker # <<>> => Like(ev.f[5], q.speaker[1], q.exact)
  /\ q.text # <<>> => Like(ev.f[10], q.text[1], q.exact)
  /\ q.effect # <<>> => Like(ev.f[9], q.effect[1], q.exact)
  /\ q.layer # <<>> => C!U32(C!Unsigned(ev.f[1])) = <<0, q.layer[1]>>
  /\ q.time # <<>> => LET u == C!ParseTime(ev.f[2])  v == C!ParseTime(ev.f[3]) IN
                       /\ u # C!Bad /\ v # C!Bad
                       /\ C!Leq(Shift(<<0, 0>>, q.time[1][1]), u) /\ C!Leq(v, Shift(<<0, 0>>, q.time[1][2]))
ZeroT(v) == IF v = C!Bad THEN <<0, 0>> ELSE v
MinusT(a, b) == IF C!Leq(a, b) THEN <<0, 0>> ELSE Shift(<<a[1] - b[1], a[2]>>, -b[2])
\* the sort key of event k, as a sequence compared lexicographically
KeyOf(ev, k, c) ==
  LET u == ZeroT(C!ParseTime(ev.f[2]))  v == ZeroT(C!ParseTime(ev.f[3])) IN
  CASE c = "start" -> u
    [] c = "end" -> v
    [] c = "duration" -> MinusT(v, u)
    [] c = "style" -> ev.f[4]
    [] c = "speaker" -> ev.f[5]
    [] c = "layer" -> ZeroT(C!U32(C!Unsigned(ev.f[1])))
    [] c = "index" -> <<k>>
    [] c = "text" -> ev.f[10]
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLess(a, b, i + 1)
\* Results are ordered by the criterion, then the second one, then by index whatever the direction.
Query(p, q) ==
  LET evs  == Events(p)
      hits == SelectSeq([k \in 1..Len(evs) |-> k], LAMBDA k : Matches(evs[k], q))
      k1   == TLCEval([k \in 1..Len(evs) |-> IF q.by = "" THEN <<>> ELSE KeyOf(evs[k], k, q.by)])
      k2   == TLCEval([k \in 1..Len(evs) |-> IF q.then = "" THEN <<>> ELSE KeyOf(evs[k], k, q.then)])
      lt(a, b) == IF q.up THEN LexLess(a, b, 1) ELSE LexLess(b, a, 1)
      first(x, y) == IF k1[x] # k1[y] THEN lt(k1[x], k1[y])
                     ELSE IF k2[x] # k2[y] THEN lt(k2[x], k2[y]) ELSE x < y
      all  == IF q.by = "" THEN hits ELSE SortSeq(hits, LAMBDA x, y : first(x, y))
  IN IF q.limit # <<>> /\ q.limit[1] < Len(all) THEN SubSeq(all, 1, q.limit[1]) ELSE all
\* What a query reports about event k.
Info(evs, k) == LET e == evs[k] IN
  [index |-> k - 1, ty |-> e.ty, f |-> e.f, mt |-> e.mt, mb |-> e.mb, line |-> e.span.line, s |-> e.span.s, e |-> e.span.e]
=============================================================================
