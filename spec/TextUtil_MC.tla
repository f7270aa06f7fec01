---------------------------- MODULE TextUtil_MC ----------------------------
(* Every byte sequence up to MaxLen over an alphabet of telling bytes.        *)
EXTENDS TextUtil, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES t
A == {9, 10, 13, 32, 97, 127, 128, 133, 191, 194, 195, 224, 239, 240, 244, 160, 255, 254, 0}
Init == t = <<>>
Next == /\ Len(t) < MaxLen /\ \E a \in A : t' = Append(t, a)
        /\ IF Printing /\ Len(t') = MaxLen THEN PrintT(<<"HIST", ToJson(<<[op |-> "reset", n |-> t', k |-> 2]>>)>>) ELSE TRUE
R == Recover(t)
\* Repair gives well-formed text, keeps well-formed text, and is a fixed point.
InvRecover == IsUtf8(R.t) /\ (IsUtf8(t) <=> R.n = 0) /\ (R.n = 0 => R.t = t) /\ Recover(R.t) = [t |-> R.t, n |-> 0]
              /\ Count(R.t, Repl) = R.n + Count(t, Repl)
InvValid == LET v == ValidUpTo(t) IN IsUtf8(SubSeq(t, 1, v)) /\ (v < Len(t) => ~CharOk(t, v + 1))
InvClean == IsUtf8(t) =>
  /\ \A k \in 0..Len(t) + 1 : LET c == Truncate(t, k) IN IsUtf8(c) /\ Len(c) <= k /\ StartsWith(t, c) /\ (k < Len(t) => k - Len(c) < 4)
  /\ ~Has(UnixEnds(t), 13) /\ UnixEnds(UnixEnds(t)) = UnixEnds(t)
  /\ LET q == RemoveControls(t) IN RemoveControls(q) = q /\ PlainAss(q) /\ (PlainAss(t) => q = t)
  /\ LET q == Collapse(Spaces(t)) IN Collapse(Spaces(q)) = q /\ ~Contains(q, <<32, 32>>)
  /\ TrimLines(TrimLines(t)) = TrimLines(t) \/ Has(t, 10)
=============================================================================
