----------------------------- MODULE TagCmd_MC ------------------------------
(* Every text of up to MaxLen pieces. Each command keeps what it does not     *)
(* name; for the implementation, each is run on the whole text and undone.    *)
EXTENDS TagCmd, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES s, n
Parts == << B("{"), B("}"), B("\\b1"), B("{\\k5\\k50}"), B("{x \\bord2\\kf 30 y}"), B("{\\t(\\k1)\\K7}"), B("a b"), <<195, 169>>, B(" "), B("{\\c&H1&\\pos(1, 2)\\i1}") >>
Base(op) == [op |-> op, via |-> IF n % 2 = 0 THEN "cmd" ELSE "fluent", from |-> 0, to |-> Len(s'), tag |-> <<>>, close |-> <<>>, pat |-> <<>>, with |-> <<>>, all |-> FALSE, keep |-> FALSE, wrapit |-> TRUE,
             kind |-> "", num |-> 0, den |-> 1, list |-> <<>>, dur |-> 0, ktype |-> "k", auto |-> TRUE]
Adjusts == << [Base("adjust") EXCEPT !.kind = "scale", !.num = 3, !.den = 2], [Base("adjust") EXCEPT !.kind = "offset", !.num = 0 - 10], [Base("adjust") EXCEPT !.kind = "set", !.num = 0],
              [Base("adjust") EXCEPT !.kind = "custom", !.list = <<11, 22>>] >>
Ops == << [Base("insert") EXCEPT !.to = 0, !.tag = B("\\i0")], [Base("remove") EXCEPT !.all = TRUE], [Base("remove") EXCEPT !.pat = B("\\k"), !.keep = TRUE, !.via = "cmd"], [Base("remove") EXCEPT !.pat = B("\\k5")],
          [Base("replace") EXCEPT !.pat = B("\\k"), !.with = B("\\kf")], [Base("replace") EXCEPT !.pat = B("\\b"), !.with = B("\\i"), !.all = TRUE],
          [Base("wrap") EXCEPT !.tag = B("\\bord3")], [Base("wrap") EXCEPT !.tag = B("\\b1")], Base("parse") >> \o Adjusts \o
       << [Base("gen") EXCEPT !.dur = 9], [Base("gen") EXCEPT !.dur = 9, !.auto = FALSE], [Base("split") EXCEPT !.list = <<2, 1, 3>>, !.dur = 7], [Base("apply") EXCEPT !.kind = "pattern", !.list = <<4, 6>>, !.ktype = "ko"] >>
RECURSIVE Run(_)
Run(os) == IF os = <<>> THEN <<>> ELSE <<Head(os)>> \o (IF Head(os).op = "parse" THEN <<>> ELSE <<[op |-> "undo"]>>) \o Run(Tail(os))
Init == s = <<>> /\ n = 0
Next == /\ n < MaxLen /\ \E i \in 1..Len(Parts) : s' = s \o Parts[i]
        /\ n' = n + 1
        /\ Printing => PrintT(<<"HIST", ToJson(<<[op |-> "reset", t |-> s']>> \o Run(Ops))>>)
P == Pieces(s)
One == [kind |-> "scale", num |-> 1, den |-> 1, list |-> <<>>]
InvWhole == Concat([k \in 1..Len(P) |-> Whole(P[k])]) = s
InvPut == \A k \in 1..Len(P) : P[k].blk => Retag(P[k].b, Spelled) = P[k].b
InvStill == /\ Replaced(s, B("\\zz"), B("x"), TRUE) = s /\ Replaced(s, B("\\b"), B("\\b"), TRUE) = s /\ Replaced(s, B("\\k"), B("\\k"), FALSE) = s
            /\ Removed(s, FALSE, B("\\zz"), TRUE) = s /\ Adjusted(P, 0, One) = s
InvPlain == Removed(s, TRUE, <<>>, FALSE) = PlainOf(P)
Flat == Flats(P)
InvGone == Flat => LET q == Pieces(Removed(s, FALSE, B("\\k"), FALSE)) IN PlainOf(q) = PlainOf(P) /\ \A k \in 1..Len(q) : q[k].blk => \A g \in 1..Len(TagsIn(q[k].b)) : ~StartsWith(TagsIn(q[k].b)[g].name, <<107>>)
InvTold == LET z == Parsed(P, 0) IN \A k \in 1..Len(z) : StartsWith(From(s, z[k].at + 1), z[k].tag)
InvKept == Flat => LET q == Pieces(Adjusted(P, 0, [One EXCEPT !.kind = "set", !.num = 77])) IN
           PlainOf(q) = PlainOf(P) /\ Notes(q).other = Notes(P).other /\ Len(Notes(q).kar) = Len(Notes(P).kar)
InvSame == TimedAs(s, s, Notes(P).kar)
InvWrap == ~Open(P) /\ Flat => LET q == Pieces(Wrapped(s, B("\\b1"), <<>>)) IN PlainOf(q) = PlainOf(P) /\ q[1].b = B("\\b1") /\ q[Len(q)].b = B("\\b0")
=============================================================================
