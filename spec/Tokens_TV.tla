------------------------------ MODULE Tokens_TV ------------------------------
EXTENDS Tokens, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
RECURSIVE FirstTok(_, _, _)
FirstTok(a, b, i) == IF i > Len(a) \/ i > Len(b) THEN ToString(Len(a)) \o " tokens expected, observed " \o ToString(Len(b))
                     ELSE IF a[i] # b[i] THEN "token " \o ToString(i) \o ": expected " \o ToString(a[i]) \o " observed " \o ToString(b[i])
                     ELSE FirstTok(a, b, i + 1)
Types(ts) == {ts[i].ty : i \in 1..Len(ts)}
Stop(t) == LET j == Until(t, 1, Delims) IN IF j > Len(t) THEN <<>> ELSE <<j - 1>>
HexOf(x) == IF x = <<>> \/ Len(x) > 8 \/ \E k \in 1..Len(x) : ~IsHex(x[k]) THEN <<>>
            ELSE LET h(a, b) == LET RECURSIVE go(_, _)
                                    go(i, v) == IF i > b THEN v ELSE go(i + 1, v * 16 + HexVal(x[i])) IN IF a > b THEN 0 ELSE go(a, 0)
                 IN << h(1, Len(x) - 4), h(MaxOf(1, Len(x) - 3), Len(x)) >>
Reset(r) ==
  LET x == Tokens(r.t) IN
  [st |-> [ok |-> TRUE],
   err |-> IF ~r.ok THEN "refused: " \o r.why
           ELSE IF x.toks # r.toks THEN FirstTok(x.toks, r.toks, 1)
           ELSE FirstDiff(<< <<"end", <<x.at.i - 1, x.at.line, x.at.col>>, r.at>>, <<"tokenized again", TRUE, r.again>>,
                             <<"all at once", Len(x.toks) <= 50, r.all>>,
                             <<"position", Follow(r.t), r.pos>> >>),
   tag |-> IF \E i \in 1..Len(x.toks) : x.toks[i].e - x.toks[i].s >= 16 THEN "long token"
           ELSE IF Types(x.toks) \cap {"HexValue", "Number", "Comment"} # {} THEN "classified" ELSE "plain"]
Step(s, r) ==
  CASE r.op = "scan" -> [st |-> s, err |-> FirstDiff(<< <<"delimiter", Stop(r.t), r.at>>, <<"hex", HexOf(r.t), r.hex>> >>), tag |-> "scan"]
    [] r.op = "utf8" -> [st |-> s, tag |-> "utf8", err |-> IF IsUtf8(r.n) THEN FirstDiff(<< <<"valid", <<>>, r.bad>> >>)
                                                      ELSE FirstDiff(<< <<"first error", <<ValidUpTo(r.n)>>, r.bad>> >>)]
INSTANCE TraceRun
=============================================================================
