---------------------------- MODULE TextUtil_TV ----------------------------
EXTENDS TextUtil, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
Reset(r) ==
  LET t == r.n  ok == IsUtf8(t)  v == ValidUpTo(t)  rec == Recover(t) IN
  [st |-> [ok |-> TRUE],
   err |-> LET e == FirstDiff(<<
        <<"byte order mark", Bom(t), r.bom>>,
        <<"first error", IF ok THEN <<>> ELSE <<v, ErrorLen(t, v)>>, r.bad>>,
        <<"repaired", rec.t, r.rec>>, <<"replacements", rec.n, r.nrec>>,
        <<"guess", Guess(t), r.guess>> >>) IN
      IF e # "" \/ ~ok THEN e ELSE FirstDiff(<<
        <<"without mark", <<StripBom(t), StripBom(t) # t>>, r.strip>>,
        <<"replacement characters", Count(t, Repl), r.count>>,
        <<"cut", <<Truncate(t, r.k), r.k < Len(t)>>, r.cut>>,
        <<"plain", PlainAss(t), r.plain>>, <<"looks like a script", LooksAss(t), r.looks>>,
        <<"line ends", UnixEnds(t), r.ends>>, <<"spaces", Spaces(t), r.spaces>>, <<"single spaces", Collapse(Spaces(t)), r.single>>,
        <<"no controls", RemoveControls(t), r.noctl>>, <<"trimmed lines", TrimLines(t), r.lines>> >>),
   tag |-> IF ~ok THEN "damaged" ELSE IF Bom(t) # <<>> THEN "marked" ELSE IF PlainAss(t) THEN "plain" ELSE "controls"]
Step(s, r) == Reset(r)
INSTANCE TraceRun
=============================================================================
