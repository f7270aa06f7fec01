------------------------------ MODULE Subs_TV -------------------------------
(* Replays recorded imports and exports of the real code.                     *)
EXTENDS Subs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
Cmp(what, e, o) == IF e = o THEN "" ELSE what \o ": expected " \o ToString(e) \o " observed " \o ToString(o)
RECURSIVE First(_)
First(es) == IF es = <<>> THEN "" ELSE IF Head(es) # "" THEN Head(es) ELSE First(Tail(es))
Detected(t) == LET x == IF StartsWith(t, BOM) THEN Drop(t, 3) ELSE t IN
  IF Contains(x, B("[Script Info]")) \/ Contains(x, B("[Events]")) THEN "ass" ELSE IF StartsWith(x, B("WEBVTT")) THEN "vtt"
  ELSE IF Contains(x, Arrow) THEN "srt" ELSE "txt"
TextLines(t) == LET ls == FileLines(t) IN IF ls[Len(ls)] = <<>> THEN SubSeq(ls, 1, Len(ls) - 1) ELSE ls
Read(r, t) ==
  LET f == IF r.fmt = "auto" THEN Detected(t) ELSE r.fmt IN
  IF ~r.done THEN "refused"
  ELSE IF f = "ass" THEN Cmp("script", t, r.out)
  ELSE LET ds == Dialogues(r.out) IN
    IF f = "txt" THEN Cmp("text", << [from |-> <<0, 0>>, to |-> <<0, 500>>, style |-> B("Default"), raw |-> Trim(Join(TextLines(t), <<92, 78>>))] >>, ds)
    ELSE LET cs == Cues(t, f = "vtt")  ms == Kept(r.via, f) IN
      First(<< Cmp("dialogues", Showing([k \in 1..Len(cs) |-> Imported(cs[k], ms)]), Showing([k \in 1..Len(ds) |-> AsDialogue(ds[k], ms)])),
                   Cmp("styles", TRUE, \A k \in 1..Len(ds) : StyleNamed(r.out, ds[k].style)),
                   IF r.n = -1 THEN "" ELSE Cmp("count", Len(ds), r.n) >>)
\* SubRip has no spelling of a tag that is text
Spoken(c, f) == IF f = "vtt" THEN c ELSE [c EXCEPT !.text = TLCEval([k \in 1..Len(c.text) |-> Inner(Html(Spell(c.text[k], HtmlMarks, HtmlOff, Same), FALSE))])]
Written(r, t) ==
  LET ds == Dialogues(t)
      ms == IF r.strip THEN {} ELSE Kept(r.via, r.fmt) IN
  IF ~r.done THEN "refused"
  ELSE IF r.fmt = "ass" THEN Cmp("script", t, r.out)
  ELSE IF r.fmt = "txt"
  THEN Cmp("text", IF r.strip THEN Plain(ds) ELSE SQ!FoldLeft(LAMBDA a, d : a \o Hard(d.raw, 1) \o <<NL>>, <<>>, ds), r.out)
  ELSE LET cs == Cues(r.out, r.fmt = "vtt") IN
    First(<< Cmp("cues", Showing([k \in 1..Len(ds) |-> Spoken(Exported(ds[k], ms), r.fmt)]), Showing([k \in 1..Len(cs) |-> AsCue(cs[k])])),
                 Cmp("header", r.fmt = "vtt", IsVtt(r.out)),
                 IF r.fmt = "srt" THEN Cmp("numbers", [k \in 1..Len(cs) |-> Digits(k)], [k \in 1..Len(cs) |-> cs[k].no]) ELSE "",
                 IF r.n = -1 THEN "" ELSE Cmp("count", Len(cs), r.n) >>)
Reset(r) == [st |-> [doc |-> <<>>, file |-> <<>>], err |-> "", tag |-> "reset"]
Full(r) == r.op \o "/" \o r.via \o "/" \o r.fmt
Step(s, r) ==
  CASE r.op = "read" -> [st |-> [s EXCEPT !.doc = r.out], err |-> Read(r, r.s), tag |-> Full(r)]
    [] r.op = "again" -> [st |-> [s EXCEPT !.doc = r.out], err |-> Read(r, s.file), tag |-> Full(r)]
    [] r.op = "write" -> [st |-> [s EXCEPT !.file = r.out], err |-> Written(r, s.doc), tag |-> Full(r)]
INSTANCE TraceRun
=============================================================================
