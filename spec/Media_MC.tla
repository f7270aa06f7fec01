------------------------------ MODULE Media_MC --------------------------------
(* Every document of up to MaxLen pieces. Commands, carried out on the text   *)
(* as plainly as possible, say what Media.tla says they do.                   *)
EXTENDS Media, IOUtils, Json
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES t, n
L(s) == B(s) \o <<NL>>
Parts == << L("[Fonts]"), L("[Graphics]"), L("[Events]"), L("fontname: a"), L("fontname:ab "), L("filename: a"), L("!```"), L(";junk"), L("# c"), L(""), L("x: [Fonts]"), B("  ") >>
Names0 == <<B("a"), B("ab"), B("b")>>
Lines0 == << B("begin 644 a"), B("!80`"), B("`"), B("end") >>
Add(k, nm) == [op |-> "add", kind |-> k, how |-> "lines", name |-> nm, lns |-> Lines0, bin |-> <<>>]
Two(op, k, nm) == <<[op |-> op, kind |-> k, name |-> nm], [op |-> "undo"]>>
Hist(x) == <<[op |-> "reset", t |-> x], Add("fonts", B("a")), [op |-> "list", kind |-> "fonts"]>> \o Two("remove", "fonts", B("ab")) \o Two("remove", "fonts", B("a")) \o Two("clear", "fonts", <<>>)
           \o <<[op |-> "undo"], [op |-> "list", kind |-> "graphics"], Add("graphics", B("ab")), [op |-> "undo"]>> \o Two("clear", "graphics", <<>>) \o Two("remove", "graphics", B("a"))
Init == t = <<>> /\ n = 0
Next == /\ n < MaxLen /\ \E i \in 1..Len(Parts) : t' = t \o Parts[i]
        /\ n' = n + 1
        /\ Printing => PrintT(<<"HIST", ToJson(Hist(t'))>>)
D == Doc(t)
Kinds == {"fonts", "graphics"}
\* a section put at the end of a text is its last section
Fresh(k) == (IF t = <<>> \/ t[Len(t)] = NL THEN t ELSE Append(t, NL)) \o Head0(k) \o Entry(k, B("a"), Lines0)
InvFresh == \A k \in Kinds : Of(D, k) = <<>> => Doc(Fresh(k)).secs = Added(D, k, B("a"), Lines0).secs
InvEmbeds == /\ Embeds("fonts", B("a"), Lines0) /\ Embeds("graphics", B(" a b "), <<>>) /\ ~Embeds("fonts", <<97, 10, 98>>, <<>>) /\ ~Embeds("fonts", B("a"), <<B("")>>) /\ ~Embeds("fonts", B("a"), <<B("x"), B("fontname: b")>>)
             /\ Embeds("graphics", B("a"), <<B("x"), B("fontname: b")>>) /\ ~Embeds("fonts", B("a"), <<B("; x")>>) /\ Embeds("fonts", B("a"), <<B("!```")>>) /\ ~Embeds("fonts", B("a"), <<B("[Fonts]")>>)
\* removing a file as the stretch of text it is read from removes that file only
Cut(k, w) == LET x == Parse(t).secs[w[1]].items[w[2]] IN SubSeq(t, 1, x.s) \o SubSeq(t, x.e + 1, Len(t))
InvCut == \A k \in Kinds : \A i \in 1..Len(Names0) : LET w == Place(D, k, Names0[i]) IN w # <<>> => /\ Doc(Cut(k, w)) = Removed(D, k, Names0[i]) /\ OnePut(Cut(k, w), t) /\ Place(D, k, Names0[i]) = w
InvBack == \A k \in Kinds : LET a == Added(D, k, B("zz"), Lines0) IN /\ Files(Removed(a, k, B("zz")), k) = Files(D, k) /\ Len(Files(a, k)) = Len(Files(D, k)) + 1
InvClear == \A k \in Kinds : LET c == Cleared(D, k) IN /\ Files(c, k) = <<>> /\ Len(c.secs) = Len(D.secs) /\ \A q \in Kinds \ {k} : Files(c, q) = Files(D, q)
InvNone == \A k \in Kinds : Of(D, k) = <<>> => Cleared(D, k) = D /\ Rest(t, k) = [i \in 1..Len(ParseLines(t)) |-> ParseLines(t)[i].b]
===============================================================================
