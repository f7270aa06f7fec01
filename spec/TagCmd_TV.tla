----------------------------- MODULE TagCmd_TV ------------------------------
(* Replays recorded tag and karaoke commands of the real code.                *)
EXTENDS TagCmd, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
Cmp(what, e, o) == IF e = o THEN "" ELSE what \o ": expected " \o ToString(e) \o " observed " \o ToString(o)
RECURSIVE First(_)
First(es) == IF es = <<>> THEN "" ELSE IF Head(es) # "" THEN Head(es) ELSE First(Tail(es))
Edge(t, p) == p <= Len(t) /\ (p = 0 \/ p = Len(t) \/ ~IsCont(t[p + 1]))
Good(t, r) == r.from <= r.to /\ Edge(t, r.from) /\ Edge(t, r.to)
Mid(t, r) == SubSeq(t, r.from + 1, r.to)
Around(t, r, new) == SubSeq(t, 1, r.from) \o new \o From(t, r.to + 1)
Refused(t, r) ==
  \/ ~Good(t, r)
  \/ (r.op = "insert" /\ ~GoodTag(Trim(r.tag)))
  \/ r.op = "gen" /\ (Find(Mid(t, r), LB, 1) # 0 \/ Find(Mid(t, r), RB, 1) # 0)
  \/ r.op \in {"split", "apply"} /\ Open(Pieces(Mid(t, r)))
  \/ r.op = "apply" /\ ((r.kind = "beat" /\ r.num = 0) \/ (r.kind = "pattern" /\ r.list = <<>>))
\* commands whose result is determined
Exact == {"insert", "remove", "replace", "wrap", "adjust"}
Result(m, r) ==
  CASE r.op = "insert" -> InsertedTag(Trim(r.tag), r.wrapit)
    [] r.op = "remove" -> Removed(m, r.all, r.pat, r.keep)
    [] r.op = "replace" -> Replaced(m, r.pat, r.with, r.all)
    [] r.op = "wrap" -> Wrapped(m, r.tag, r.close)
    [] r.op = "adjust" -> Adjusted(Pieces(m), 0, r)
\* the karaoke of the others
Durations(r) == IF r.kind = "pattern" THEN r.list ELSE IF r.kind = "equal" THEN <<r.dur>> ELSE <<(6000 * r.den) \div (r.num * 4)>>
Karaoke(m, r) ==
  LET p == PlainOf(Pieces(m)) IN
  IF r.op = "split" THEN LET at == (IF p = <<>> THEN <<>> ELSE <<0>>) \o Splits(CharStarts(p), r.list, 0) IN [k \in 1..Len(at) |-> <<at[k], KTag(<<107>>, IF r.dur = 0 THEN 50 ELSE r.dur)>>]
  ELSE LET ws == WordStarts(p)  ds == Durations(r) IN [k \in 1..Len(ws) |-> <<ws[k] - 1, KTag(B(r.ktype), ds[((k - 1) % Len(ds)) + 1])>>]
Judge(t, r) ==
  IF Refused(t, r) THEN First(<<Cmp("refused", FALSE, r.ok), Cmp("text", t, r.after)>>)
  ELSE LET m == Mid(t, r)  u == SubSeq(r.after, r.from + 1, Len(r.after) - (Len(t) - r.to)) IN
       First(<< Cmp("done", TRUE, r.ok),
                IF r.op \in Exact THEN Cmp("text", Around(t, r, Result(m, r)), r.after)
                ELSE First(<< Cmp("around", Around(t, r, u), r.after),
                              IF r.op = "gen" THEN (IF Generated(m, u, KTag(B(r.ktype), r.dur), r.auto) THEN "" ELSE "generated " \o ToString(u))
                              ELSE IF ~Flats(Pieces(m)) \/ TimedAs(m, u, Karaoke(m, r)) THEN "" ELSE "timed " \o ToString(u) \o " karaoke " \o ToString(Karaoke(m, r)) >>),
                IF r.rng = <<>> THEN "" ELSE Cmp("range", <<r.from, Len(r.after) - (Len(t) - r.to)>>, r.rng) >>)
Reset(r) == [st |-> [t |-> r.t, prev |-> <<>>], err |-> "", tag |-> "reset"]
Step(s, r) ==
  CASE r.op = "undo" -> [st |-> [t |-> r.after, prev |-> <<>>], tag |-> IF s.prev = <<>> THEN "undo/none" ELSE "undo",
                         err |-> IF s.prev = <<>> THEN "" ELSE First(<<Cmp("undone", TRUE, r.ok), Cmp("text", s.prev[1], r.after)>>)]
    [] r.op = "parse" -> [st |-> s, tag |-> "parse/" \o r.via,
                          err |-> IF Good(s.t, r) THEN First(<<Cmp("done", TRUE, r.ok), Cmp("tags", Parsed(Pieces(Mid(s.t, r)), r.from), r.got)>>) ELSE Cmp("refused", FALSE, r.ok)]
    [] OTHER -> [st |-> [t |-> r.after, prev |-> IF r.ok /\ r.after # s.t THEN <<s.t>> ELSE <<>>], err |-> Judge(s.t, r),
                 tag |-> IF Refused(s.t, r) THEN r.op \o "/refused" ELSE r.op \o "/" \o r.via \o "/" \o r.kind]
INSTANCE TraceRun
=============================================================================
