----------------------------- MODULE AssParse_MC -----------------------------
(* Every document of up to MaxLines lines over an alphabet of telling lines.  *)
(* The reader's guarantees are invariants of the automaton; each complete     *)
(* document is also printed, to be read by the implementation.                *)
EXTENDS AssParse, Json, IOUtils
MaxLines == atoi(IOEnv.MAXLINES)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES p, ls, hdrs, txt

Alphabet == <<
  B("[Script Info]"), B("[V4+ Styles]"), B("[Events]"), B("[Fonts]"), B("[Graphics]"), B(" [Events]  trailing"),
  B("[Unknown]"), B("[Events"), B("garbage"), <<>>, B("; comment"), B("!: note"),
  B("Title: a:b "), B("ScriptType: v4.00++"), B("Format: Name, Bold"), B("Format: Start, Text"),
  B("Style: *P, x ,1"), B("Style: y"), B("Style: a,b,c"), B("Dialogue: 1, two, three"), B("Comment: one"),
  B("fontname: f.ttf"), B("filename: g.png"), B("!! ``"), B("data"), B("# end") >>

LineRec(b, off) == [off |-> off, b |-> b]
IsKnownHeader(b) == LET tr == Trim(b) IN IsHeaderish(tr) /\ Has(tr, CB) /\ SectionKind(HeaderName(tr)) # "unknown"

Init == p = Start /\ ls = <<>> /\ hdrs = 0 /\ txt = <<>>
Next == /\ Len(ls) < MaxLines
        /\ \E a \in 1..Len(Alphabet) :
             LET ln == LineRec(Alphabet[a], Len(txt)) IN
             /\ ls' = Append(ls, ln)
             /\ p' = StepLine(p, ln, Len(ls) + 1)
             /\ hdrs' = hdrs + (IF IsKnownHeader(ln.b) THEN 1 ELSE 0)
             /\ txt' = txt \o ln.b \o <<NL>>
             /\ IF Printing /\ Len(ls') = MaxLines THEN PrintT(<<"HIST", ToJson(<<[op |-> "reset", t |-> txt']>>)>>) ELSE TRUE

\* Every well-formed header of a known section opens that section, whatever precedes it.
InvHeaders == Len(p.secs) = hdrs
InvMode == InSection(p) => p.secs # <<>> /\
             LastSec(p).k = (CASE p.mode = "fontdata" -> "fonts" [] p.mode = "graphicdata" -> "graphics" [] OTHER -> p.mode)
\* What precedes a header does not change what its section contains.
LastHdr == CHOOSE i \in 1..Len(ls) : IsKnownHeader(ls[i].b) /\ \A j \in (i + 1)..Len(ls) : ~IsKnownHeader(ls[j].b)
InvRecover == hdrs = 0 \/
  LET alone == FoldLines(Start, SubSeq(ls, LastHdr, Len(ls)), 1)
  IN SecData(alone.secs[1]) = SecData(LastSec(p)) /\ alone.mode = p.mode
\* Issues name lines that exist, in order.
InvIssues == \A i \in 1..Len(p.iss) : p.iss[i].line \in 1..Len(ls) /\ (i > 1 => p.iss[i - 1].line < p.iss[i].line)
\* Spans lie inside the text, in order, without overlap.
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
InvSpans == LET q == Close(p, Len(txt))  sp == Flat(DocSpans(q))
            IN \A i \in 1..Len(sp) : sp[i][1] <= sp[i][2] /\ sp[i][2] <= Len(txt) /\ (i > 1 => sp[i - 1][2] <= sp[i][1])
                                     /\ sp[i][3] \in 1..Len(ls)
\* Splitting the text into lines is what the automaton saw.
InvText == LET q == Parse(txt) IN DocData(q) = DocData(Close(p, Len(txt))) /\ q.iss = p.iss
=============================================================================
