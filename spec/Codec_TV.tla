------------------------------ MODULE Codec_TV ------------------------------
(* Validates recorded uses of the real codecs against Codec.                  *)
EXTENDS Codec, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
Cmp(e, o) == IF e = o THEN "" ELSE "expected " \o ToString(e) \o " observed " \o ToString(o)
OkBad(v) == IF v = Bad THEN "refused" ELSE "read"
Check(r) ==
  CASE r.k = "time"   -> LET v == ParseTime(r.s) IN <<Cmp(v, r.v), "time " \o OkBad(v)>>
    [] r.k = "span"   -> LET a == ParseTime(r.s)  b == ParseTime(r.e)
                             d == IF a = Bad \/ b = Bad THEN Bad ELSE Minus(b, a)
                         IN <<Cmp(<<a, b, d>>, <<r.a, r.b, r.d>>), "duration " \o (IF d = <<0, 0>> THEN "none" ELSE OkBad(d))>>
    [] r.k = "ftime"  -> <<Cmp(<<FormatTime(r.v), r.v>>, <<r.o, r.back>>), "time written">>
    [] r.k = "colour" -> LET v == ParseColour(r.s) IN <<Cmp(v, r.v), "colour " \o OkBad(v)>>
    [] r.k = "hex"    -> LET v == ParseHex(r.s) IN <<Cmp(v, r.v), "hex " \o OkBad(v)>>
    [] r.k = "uu"     -> LET v == DecodeUU(r.ls, 1, <<>>) IN <<Cmp(<<v, v, v>>, r.v), "uu " \o (IF v = <<>> THEN "empty" ELSE "data")>>
    [] r.k = "name"   -> <<Cmp(ValidName(r.s), r.v), "name">>
    [] r.k = "uuenc"  -> LET v == EncodeUU(r.d) IN <<Cmp(<<r.d, v>>, <<r.v, r.ls>>), "uu round trip">>
Reset(r) == LET c == Check(r) IN [st |-> [ok |-> TRUE], err |-> c[1], tag |-> c[2]]
Step(s, r) == Reset(r)
INSTANCE TraceRun
=============================================================================
