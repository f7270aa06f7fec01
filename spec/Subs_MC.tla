------------------------------ MODULE Subs_MC -------------------------------
(* Whatever is written reads back the same, in each format, and any sequence  *)
(* of conversions keeps the cues, to a hundredth of a second.                 *)
EXTENDS Subs, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES cs, file, fmt, ops, n
vars == <<cs, file, fmt, ops, n>>
Lines_ == {<<97>>, <<1002, 97, 32, 195, 169, 1003>>, <<1004, 97>>, <<97, 1005, 38, 98>>, <<97, 32, 60, 32, 98>>, <<49>>, <<1006, 49, 1007>>}
Texts == {<<a>> : a \in Lines_} \cup {<<a, b>> : a \in {<<97>>, <<1002, 49>>}, b \in {<<49>>, <<98, 1003>>}}
Times == {<<0, 0>>, <<0, 1234>>, <<1, 3599999>>}
CueSet == {[from |-> f, to |-> <<f[1] + 1, t>>, no |-> <<>>, text |-> x] : f \in Times, t \in {999}, x \in Texts}
Some == {c \in CueSet : c.from[1] = 0}
Wr(c, f) == IF f = "ass" THEN WriteScript(c) ELSE WriteFile(c, f = "vtt")
Rd(t, f) == IF f = "ass" THEN (LET ds == Dialogues(t) IN [k \in 1..Len(ds) |-> AsDialogue(ds[k], Basic)])
            ELSE (LET c == Cues(t, f = "vtt") IN [k \in 1..Len(c) |-> Imported(c[k], Basic)])
ToCue(x) == [from |-> OfCs(x.from), to |-> OfCs(x.to), no |-> <<>>, text |-> x.text]
Base == [op |-> "read", via |-> "utils", fmt |-> "", ext |-> "", strip |-> FALSE, opts |-> "", s |-> <<>>]
Out(o) == Printing => PrintT(<<"HIST", ToJson(<<[op |-> "reset"]>> \o o)>>)
ReadOp(v, f, t) == [Base EXCEPT !.via = v, !.fmt = f, !.s = t]
WriteOp(v, f) == [Base EXCEPT !.op = "write", !.via = v, !.fmt = f]
AgainOp(v, f) == [Base EXCEPT !.op = "again", !.via = v, !.fmt = f]
Init == /\ cs \in {<<c>> : c \in CueSet} \cup {<<a, b>> : a \in Some, b \in {CHOOSE x \in Some : x.text = <<<<97>>, <<49>>>>}} \cup {<<>>}
        /\ fmt \in {"srt", "vtt", "ass"} /\ file = Wr(cs, fmt) /\ n = 0
        /\ \E v \in {"formats", "utils"} : ops = <<ReadOp(v, fmt, file)>>
Next == /\ n < MaxLen
        /\ \E f \in {"srt", "vtt", "ass"}, v \in {"formats", "utils"} :
             LET r == Rd(file, fmt) IN
             /\ file' = Wr([k \in 1..Len(r) |-> ToCue(r[k])], f)
             /\ fmt' = f /\ ops' = ops \o <<WriteOp(v, f), AgainOp(IF v = "utils" THEN "formats" ELSE "utils", f)>>
        /\ n' = n + 1 /\ UNCHANGED cs
        /\ Out(ops')
Spec == Init /\ [][Next]_vars
InvKept == Rd(file, fmt) = [k \in 1..Len(cs) |-> Imported(cs[k], Basic)]
InvShown == LET c == Cues(WriteFile(cs, TRUE), TRUE) IN [k \in 1..Len(c) |-> AsCue(c[k])] = [k \in 1..Len(cs) |-> AsCue(cs[k])]
InvExport == fmt = "ass" => LET ds == Dialogues(file)  e == [k \in 1..Len(ds) |-> Exported(ds[k], Basic)] IN
               \A k \in 1..Len(ds) : e[k].text = cs[k].text /\ ToCs(e[k].from) = ToCs(cs[k].from)
=============================================================================
