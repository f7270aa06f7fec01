----------------------------- MODULE ScriptMut -----------------------------
(* A parsed script as a mutable object: lines replaced where they stand,      *)
(* items and sections added and removed, batches that apply as a whole or not *)
(* at all, and the record kept of the changes.  What a line says is decided   *)
(* by AssParse; here it is decided where it goes and what is remembered.      *)
(*                                                                            *)
(* s.secs  sections [k, items, at]; an item is [d |-> what it says, p |->     *)
(*         its place <<start, end, line, column>>]; at is the place of a      *)
(*         [Script Info] section.                                             *)
(* s.chg   recorded changes, s.track whether they are being recorded.         *)
EXTENDS AssParse

NoPlace == <<0, 0, 0, 0>>
Item(d, p) == [d |-> d, p |-> p]
Mut0(p, info) ==
  [secs |-> [i \in 1..Len(p.secs) |->
      LET k == p.secs[i].k  sp == SecSpans(p.secs[i]) IN
      [k |-> k, at |-> info[i], items |-> [j \in 1..Len(p.secs[i].items) |->
          Item(ItemData(k, p.secs[i].items[j]), IF k = "info" THEN NoPlace ELSE sp[j])]]],
   sfmt |-> p.sfmt, efmt |-> p.efmt, track |-> FALSE, chg |-> <<>>]

\* --- places --------------------------------------------------------------------
Within(p, o) == p[1] <= o /\ o < p[2]
HasPlace(x) == x.p[1] < x.p[2]
Placed(s) == SelectSeq(s.items, HasPlace)
\* The extent of a section runs over the items that have a place in the text.
Extent(s) == IF s.k = "info" THEN s.at
             ELSE LET q == Placed(s) IN IF q = <<>> THEN NoPlace ELSE <<q[1].p[1], q[Len(q)].p[2]>>
RECURSIVE FirstAt(_, _, _, _)
FirstAt(Hit(_, _), xs, o, i) == IF i > Len(xs) THEN 0 ELSE IF Hit(xs[i], o) THEN i ELSE FirstAt(Hit, xs, o, i + 1)
SecHit(s, o) == Within(Extent(s), o)
ItemHit(x, o) == Within(x.p, o)
SecIndexAt(secs, o) == LET S == {i \in 1..Len(secs) : SecHit(secs[i], o)} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
ItemIndexAt(items, o) == LET S == {i \in 1..Len(items) : ItemHit(items[i], o)} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

\* --- what a single line says, given the document's formats -------------------------
Fmt(f, default) == IF f = <<>> \/ f[1] = <<>> THEN default ELSE f[1]
StyleSays(line, fmt) ==
  LET lead == SkipWs(line, 1)
      star == lead <= Len(line) /\ line[lead] = STAR
      c    == Find(line, COMMA, 1)
      inh  == star /\ c # 0
      rest == IF inh THEN From(line, c + 1) ELSE line
      par  == IF inh THEN <<Trim(DropStars(TrimStart(SubSeq(line, 1, c - 1))))>> ELSE <<>>
      ps   == Split(rest, COMMA)
  IN IF Len(ps) < Len(fmt) THEN [err |-> "InsufficientFields"]
     ELSE [err |-> "", k |-> "styles", d |-> ItemData("styles", StyleRec(fmt, ps, par, NoPlace))]
EventSays(line, fmt) ==
  LET K == {i \in 1..6 : StartsWith(line, EventPrefixes[i])} IN
  IF K = {} THEN [err |-> "InvalidEventType"]
  ELSE LET k  == CHOOSE i \in K : TRUE
           ps == SplitN(Trim(Drop(line, Len(EventPrefixes[k]))), COMMA, IF Pos(fmt, NText) # 0 THEN Len(fmt) ELSE 10)
       IN IF Len(ps) < Len(fmt) THEN [err |-> "InsufficientFields"]
          ELSE [err |-> "", k |-> "events", d |-> ItemData("events", EventRec(fmt, ps, EventTypes[k], NoPlace))]
FieldSays(line) == LET c == Find(line, COLON, 1) IN
  IF c = 0 THEN [err |-> "InvalidFieldFormat"]
  ELSE [err |-> "", k |-> "info", d |-> [key |-> Trim(SubSeq(line, 1, c - 1)), val |-> Trim(From(line, c + 1))]]
\* The kind of an isolated line is told by how it begins.
LineSays(s, line) ==
  LET t == Trim(line) IN
  IF StartsWith(t, PStyle) THEN StyleSays(Trim(Drop(t, Len(PStyle))), Fmt(s.sfmt, StyleNames))
  ELSE IF \E i \in 1..6 : StartsWith(t, EventPrefixes[i]) THEN EventSays(t, Fmt(s.efmt, EventNames))
  ELSE IF StartsWith(t, PFormat) THEN [err |-> "InvalidFieldFormat"]
  ELSE FieldSays(t)
LineSaysIn(s, k, line) ==
  IF k = "styles" THEN IF s.sfmt = <<>> THEN [err |-> "MissingFormat"] ELSE StyleSays(line, Fmt(s.sfmt, StyleNames))
  ELSE IF k = "events" THEN IF s.efmt = <<>> THEN [err |-> "MissingFormat"] ELSE EventSays(line, Fmt(s.efmt, EventNames))
  ELSE IF k = "info" THEN FieldSays(line)
  ELSE [err |-> "UnsupportedSection"]

\* --- mutations: [st, err, old]; a refused one leaves the script as it was ---------------
Record(s, c) == IF s.track THEN [s EXCEPT !.chg = Append(@, c)] ELSE s
Refuse(s, e) == [st |-> s, err |-> e, old |-> <<>>]
Update(s, o, line, no) ==
  LET i == SecIndexAt(s.secs, o)  w == LineSays(s, line) IN
  IF i = 0 THEN Refuse(s, "SectionNotFound")
  ELSE IF w.err # "" THEN Refuse(s, w.err)
  ELSE IF s.secs[i].k # w.k THEN Refuse(s, "InvalidFieldFormat")
  ELSE IF w.k = "info"
  THEN LET S == {j \in 1..Len(s.secs[i].items) : s.secs[i].items[j].d.key = w.d.key} IN
       IF S = {}
       THEN [st |-> Record([s EXCEPT !.secs[i].items = Append(@, Item(w.d, NoPlace))], [c |-> "added", at |-> o, new |-> w.d, no |-> no]),
             err |-> "", old |-> [key |-> w.d.key, val |-> <<>>]]
       ELSE LET j == CHOOSE x \in S : \A y \in S : x <= y  old == s.secs[i].items[j].d IN
            [st |-> Record([s EXCEPT !.secs[i].items[j].d = w.d], [c |-> "modified", at |-> o, old |-> old, new |-> w.d, no |-> no]),
             err |-> "", old |-> old]
  ELSE LET j == ItemIndexAt(s.secs[i].items, o) IN
       IF j = 0 THEN Refuse(s, "IndexOutOfBounds")
       ELSE LET old == s.secs[i].items[j].d IN
            [st |-> Record([s EXCEPT !.secs[i].items[j].d = w.d], [c |-> "modified", at |-> o, old |-> old, new |-> w.d, no |-> no]),
             err |-> "", old |-> old]

\* Items go to the end of the first section of their kind, which is made if there is none.
KindAt(s, k) == LET S == {i \in 1..Len(s.secs) : s.secs[i].k = k} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
AsItems(ds) == [i \in 1..Len(ds) |-> Item(ds[i], NoPlace)]
AddItems(s, k, ds) ==
  LET i == KindAt(s, k) IN
  IF i = 0 THEN [st |-> [s EXCEPT !.secs = Append(@, [k |-> k, at |-> NoPlace, items |-> AsItems(ds)])], from |-> 0]
  ELSE [st |-> [s EXCEPT !.secs[i].items = @ \o AsItems(ds)], from |-> Len(s.secs[i].items)]
AddSection(s, k, ds) ==
  Record([s EXCEPT !.secs = Append(@, [k |-> k, at |-> NoPlace, items |-> AsItems(ds)])],
         [c |-> "sec added", k |-> k, items |-> ds, at |-> Len(s.secs)])
RemoveSection(s, i) ==
  Record([s EXCEPT !.secs = SubSeq(@, 1, i) \o SubSeq(@, i + 2, Len(@))], [c |-> "sec removed", k |-> s.secs[i + 1].k, at |-> i])

\* Operations <<offset, line, number>> in the order of their offsets, equal ones as given.
RECURSIVE Insert(_, _, _)
Insert(q, x, i) == IF i > Len(q) THEN Append(q, x)
                   ELSE IF q[i][1] > x[1] THEN SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q)) ELSE Insert(q, x, i + 1)
RECURSIVE ByOffset(_, _)
ByOffset(ops, acc) == IF ops = <<>> THEN acc ELSE ByOffset(Tail(ops), Insert(acc, ops[1], 1))
RECURSIVE Each(_, _, _, _)
Each(s, ops, done, failed) ==
  IF ops = <<>> THEN [st |-> s, done |-> done, failed |-> failed]
  ELSE LET u == Update(s, ops[1][1], ops[1][2], ops[1][3]) IN
       IF u.err = "" THEN Each(u.st, Tail(ops), Append(done, <<ops[1][1], u.old>>), failed)
       ELSE Each(s, Tail(ops), done, Append(failed, <<ops[1][1], u.err>>))
Batch(s, ops) == Each(s, ByOffset(ops, <<>>), <<>>, <<>>)

\* All or nothing.
RECURSIVE Valid(_, _)
Valid(s, ops) == IF ops = <<>> THEN "" ELSE IF SecIndexAt(s.secs, ops[1][1]) = 0 THEN "SectionNotFound"
                 ELSE LET w == LineSays(s, ops[1][2]) IN IF w.err # "" THEN w.err ELSE Valid(s, Tail(ops))
RECURSIVE InTurn(_, _)
InTurn(s, ops) == IF ops = <<>> THEN [st |-> s, err |-> ""]
                  ELSE LET u == Update(s, ops[1][1], ops[1][2], ops[1][3]) IN IF u.err # "" THEN [st |-> s, err |-> u.err] ELSE InTurn(u.st, Tail(ops))
Atomic(s, ops, styles, events) ==
  LET v == Valid(s, ops)  r == InTurn(s, ops) IN
  IF v # "" THEN Refuse(s, v)
  ELSE IF r.err # "" THEN Refuse(s, r.err)
  ELSE LET a == IF styles = <<>> THEN r.st ELSE AddItems(r.st, "styles", styles[1]).st
           b == IF events = <<>> THEN a ELSE AddItems(a, "events", events[1]).st
       IN [st |-> b, err |-> "", old |-> <<>>]

\* How one script differs from another, section by section.
RECURSIVE DiffFrom(_, _, _, _)
DiffFrom(a, b, i, out) ==
  IF i > MaxOf(Len(a), Len(b)) THEN out
  ELSE LET gone == IF i <= Len(b) THEN <<[c |-> "sec removed", k |-> b[i].k, at |-> i - 1]>> ELSE <<>>
           here == IF i <= Len(a) THEN <<[c |-> "sec added", k |-> a[i].k, items |-> [j \in 1..Len(a[i].items) |-> a[i].items[j].d], at |-> i - 1]>> ELSE <<>>
       IN DiffFrom(a, b, i + 1, IF i <= Len(a) /\ i <= Len(b) /\ a[i] = b[i] THEN out ELSE out \o gone \o here)
Diff(a, b) == DiffFrom(a.secs, b.secs, 1, <<>>)

\* --- applying recorded changes to section lists: the record suffices to redo them --------
ApplySec(secs, c) == IF c.c = "sec added" THEN Append(secs, [k |-> c.k, at |-> NoPlace, items |-> AsItems(c.items)])
                     ELSE SubSeq(secs, 1, c.at) \o SubSeq(secs, c.at + 2, Len(secs))
=============================================================================
