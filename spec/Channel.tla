------------------------------ MODULE Channel ------------------------------
(* The editor's event channel: handlers with filters and priorities.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Edits == {"TextInserted", "TextDeleted", "TextReplaced"}
Modifies == Edits \cup {"UndoPerformed", "RedoPerformed"}
Cursor == {"CursorMoved", "SelectionChanged"}
\* a custom event is written *type; filters know it by its type alone
Names == [n \in {"*custom", "*TextInserted", "*"} |-> CASE n = "*custom" -> "custom" [] n = "*TextInserted" -> "TextInserted" [] OTHER -> ""]
TypeName(e) == IF e \in DOMAIN Names THEN Names[e] ELSE e
SetOf(x) == {x[i] : i \in 1..Len(x)}
Agrees(want, fact) == want = "any" \/ (want = "yes") = fact
Matches(f, e) == /\ TypeName(e) \notin SetOf(f.exc)
                 /\ f.inc = <<>> \/ TypeName(e) \in SetOf(f.inc)
                 /\ Agrees(f.mods, e \in Modifies) /\ Agrees(f.cur, e \in Cursor)

NoChannel(max) == [max |-> max, hs |-> <<>>, nextId |-> 0, who |-> 0, sent |-> 0, filtered |-> 0, queued |-> 0, open |-> "no", queue |-> <<>>]
\* highest priority first, and among equals the one registered first
RECURSIVE Place(_, _)
Place(hs, h) == IF hs = <<>> THEN <<h>> ELSE IF hs[1].pri < h.pri THEN <<h>> \o hs ELSE <<hs[1]>> \o Place(Tail(hs), h)
Ans(c, res, val, log) == [c |-> c, res |-> res, val |-> val, log |-> log, queue |-> <<>>]
Register(c, o) ==
  LET d == [c EXCEPT !.nextId = @ + 1, !.who = @ + 1]
      h == [id |-> c.nextId, who |-> d.who, pri |-> o.pri, inc |-> o.inc, exc |-> o.exc, mods |-> o.mods, cur |-> o.cur, fail |-> o.fail] IN
  IF Len(c.hs) >= c.max THEN Ans(d, "CommandFailed", <<>>, <<>>)
  ELSE Ans([d EXCEPT !.hs = Place(@, h)], "", <<h.id>>, <<>>)
Unregister(c, id) == LET k == {i \in 1..Len(c.hs) : c.hs[i].id = id} IN
  Ans([c EXCEPT !.hs = SelectSeq(@, LAMBDA h : h.id # id)], "", <<k # {}>>, <<>>)

\* who is told of an event; a handler's failure ends the dispatch
RECURSIVE Tell(_, _, _, _, _)
Tell(hs, e, n, log, skipped) ==
  IF hs = <<>> THEN [log |-> log, skipped |-> skipped, ok |-> TRUE]
  ELSE IF ~Matches(hs[1], e) THEN Tell(Tail(hs), e, n, log, skipped + 1)
  ELSE IF e \in SetOf(hs[1].fail) THEN [log |-> Append(log, <<hs[1].who, e, n>>), skipped |-> 0, ok |-> FALSE]
  ELSE Tell(Tail(hs), e, n, Append(log, <<hs[1].who, e, n>>), skipped)
Dispatch(c, e, n) ==
  LET t == Tell(c.hs, e, n, <<>>, 0) IN
  Ans([c EXCEPT !.sent = @ + 1, !.filtered = @ + t.skipped], IF t.ok THEN "" ELSE "CommandFailed", <<>>, t.log)
RECURSIVE Batch(_, _, _, _)
Batch(c, es, n, log) ==
  IF es = <<>> THEN Ans(c, "", <<>>, log)
  ELSE LET d == Dispatch(c, es[1], n) IN
       IF d.res # "" THEN [d EXCEPT !.log = log \o @] ELSE Batch(d.c, Tail(es), n + 1, log \o d.log)
Post(c, e, n) ==
  CASE c.open = "no" -> Ans(c, "FeatureNotEnabled", <<>>, <<>>)
    [] c.open = "gone" -> Ans(c, "CommandFailed", <<>>, <<>>)
    [] OTHER -> Ans([c EXCEPT !.queued = @ + 1, !.queue = Append(@, <<0, e, n>>)], "", <<>>, <<>>)
Facts(e, n) == <<e \in Modifies, e \in Modifies \cup {"DocumentLoaded"},
                 CASE e = "TextInserted" -> <<n, n + 3>> [] e \in Edits -> <<n, n + 2>> [] OTHER -> <<>> >>
Do(c, o) ==
  CASE o.op = "register" -> Register(c, o)
    [] o.op = "unregister" -> Unregister(c, o.id)
    [] o.op = "clear" -> Ans([c EXCEPT !.hs = <<>>], "", <<>>, <<>>)
    [] o.op = "dispatch" -> Dispatch(c, o.ev, o.n)
    [] o.op = "batch" -> Batch(c, o.evs, o.n, <<>>)
    [] o.op = "setup" -> Ans([c EXCEPT !.open = "yes", !.queue = <<>>], "", <<>>, <<>>)
    [] o.op = "hangup" -> Ans([c EXCEPT !.open = IF @ = "yes" THEN "gone" ELSE @, !.queue = <<>>], "", <<>>, <<>>)
    [] o.op = "post" -> Post(c, o.ev, o.n)
    [] o.op = "drain" -> [Ans([c EXCEPT !.queue = <<>>], "", <<>>, <<>>) EXCEPT !.queue = c.queue]
    [] o.op = "facts" -> Ans(c, "", Facts(o.ev, o.n), <<>>)
=============================================================================
