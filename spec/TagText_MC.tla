----------------------------- MODULE TagText_MC -----------------------------
(* Every event text of up to MaxLen pieces, as states; each is printed for    *)
(* the implementation.                                                        *)
EXTENDS TagText, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES s, n
Pieces == << B("{"), B("}"), B("\\"), B("b1"), B("t("), B(")"), B("p1"), B("p0"), B("n"), <<195, 169>>, B(" ") >>
Handlers == << <<B("b"), "processed">>, <<B("t"), "failed">>, <<B("p"), "ignored">> >>
Init == s = <<>> /\ n = 0
Next == /\ n < MaxLen
        /\ \E i \in 1..Len(Pieces) : s' = s \o Pieces[i]
        /\ n' = n + 1
        /\ Printing => PrintT(<<"HIST", ToJson(<<[op |-> "reset", k |-> "text", s |-> s', hs |-> Handlers]>>)>>)
A == Analyze(s, NoHandlers)
AH == Analyze(s, Handlers)
\* Tags come in text order, each where its backslash is, and read back from the text.
InvPlaced == \A i \in 1..Len(A.tags) :
  LET t == A.tags[i] IN /\ SubSeq(s, t.at + 1, t.at + 1 + Len(t.name) + Len(t.args)) = <<BS>> \o t.name \o t.args
                        /\ (i > 1 => A.tags[i - 1].at + Len(A.tags[i - 1].name) + Len(A.tags[i - 1].args) < t.at)
\* Handlers change costs and add diagnostics, never the tags or the visible text.
InvHandlers == /\ AH.plain = A.plain
               /\ Len(AH.tags) = Len(A.tags)
               /\ \A i \in 1..Len(A.tags) : AH.tags[i].name = A.tags[i].name /\ AH.tags[i].at = A.tags[i].at
               /\ Len(AH.diag) >= Len(A.diag)
\* Text without braces and backslashes is all visible.
InvPlain == (~Has(s, LB) /\ ~Has(s, BS)) => (A.plain = s /\ A.tags = <<>>)
\* Every visible byte comes from outside the blocks, in order; nothing is visible while drawing.
InvBreaks == (~Has(s, LB)) => LineBreaks(s, FALSE).text = A.plain
InvLen == Len(A.plain) <= Len(s) /\ ((s # <<>> /\ s[1] = LB /\ BlockEnd(s, 2, 1) = 0) => A.plain = <<>>)
\* Blocks are analysed independently: prefixing a text with a complete block only shifts it.
Pre == B("{\\b1}")
InvShift == LET p == Analyze(Pre \o s, NoHandlers) IN
            /\ p.plain = A.plain /\ p.draw = A.draw /\ Len(p.tags) = Len(A.tags) + 1
            /\ \A i \in 1..Len(A.tags) : p.tags[i + 1] = [A.tags[i] EXCEPT !.at = @ + Len(Pre)]
=============================================================================
