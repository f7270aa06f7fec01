----------------------------- MODULE TagArgs_MC -----------------------------
(* Every argument text of up to MaxLen pieces for every kind of tag: what is  *)
(* accepted does not depend on surrounding white space, and the tags that     *)
(* share a grammar nest as intended.                                          *)
EXTENDS TagArgs, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES s, n
Pieces == << B("0"), B("1"), B("5"), B("10"), B("00"), B("255"), B("256"), B("-"), B("+"), B("."), B(","), B("("), B(")"), B(" "), B("&H"), B("&"), B("aF"), B("m"), B("4294967295"), <<195, 169>> >>
Init == s = <<>> /\ n = 0
\* one representative of each kind
Reps == << "b", "i", "bord", "be", "a", "an", "q", "fade", "fad", "t", "clip", "fn", "fs", "k", "r", "org", "pos", "move", "frz", "N", "3c", "alpha" >>
Next == /\ n < MaxLen
        /\ \E i \in 1..Len(Pieces) : s' = s \o Pieces[i] /\ n' = n + 1
        /\ Printing => PrintT(<<"HIST", ToJson([i \in 1..Len(Reps) |-> [op |-> "reset", k |-> "args", name |-> Reps[i], s |-> s']])>>)
Spaces == \A n1 \in BuiltIn : Accepts(n1, s) = Accepts(n1, <<32>> \o s \o <<9, 32>>)
Nesting == /\ (Accepts("i", s) => Accepts("b", s)) /\ (Accepts("be", s) => Accepts("i", s))
           /\ (Accepts("fs", s) => Accepts("bord", s)) /\ (Accepts("org", s) => Accepts("pos", s))
           /\ (Accepts("fad", s) => Accepts("t", s)) /\ (Accepts("k", s) /\ Trim(s)[1] # 43 => Accepts("fsp", s))
           /\ ~(Accepts("3c", s) /\ Accepts("alpha", s)) /\ ~(Accepts("pos", s) /\ Accepts("move", s))
           /\ (Accepts("an", s) => Accepts("k", s))
=============================================================================
