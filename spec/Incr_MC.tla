------------------------------ MODULE Incr_MC ------------------------------
(* Editing sessions over small documents: each step replaces a run of lines   *)
(* by another line.  Invariants tie delta and range adjustment to the text;   *)
(* the sessions are printed to be replayed into the implementation.           *)
EXTENDS Incr, Json, IOUtils
Depth == atoi(IOEnv.GENDEPTH)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES t, old, last, hist

A == << B("[Script Info]"), B("Title: a"), B("[V4+ Styles]"), B("Style: S,b"), B("Format: Name, Bold"), B("[Events]"),
        B("Format: Start, Text"), B("Dialogue: 1, x"), B("Dialogue: 2, y, z"), B("[Fonts]"), B("fontname: f"), B("!!``"),
        B("[Graphics]"), B("filename: g"), <<>>, B("[Evil"), B("; c") >>
RECURSIVE Cat(_)
Cat(ls) == IF ls = <<>> THEN <<>> ELSE ls[1] \o <<NL>> \o Cat(Tail(ls))
Text(is) == Cat([i \in 1..Len(is) |-> A[is[i]]])
Docs == { Text(<<1, 2, 6, 7, 8, 9>>), Text(<<6, 7, 8, 3, 5, 4, 6, 7, 9>>), Text(<<10, 11, 12, 13, 14, 12, 1, 2, 1>>),
          Text(<<1, 15, 17, 3, 5, 4, 15, 6, 7, 8>>), <<>> }
\* offsets of line starts, and the end
Bounds(x) == LET ls == Lines(x) IN {ls[i].off : i \in 1..Len(ls)} \cup {Len(x)}

Init == t \in Docs /\ old = t /\ last = [s |-> 0, e |-> 0, n |-> <<>>] /\ hist = <<[op |-> "reset", t |-> t]>>
Next == /\ Len(hist) <= Depth
        /\ \E s \in Bounds(t), e \in Bounds(t), i \in 0..Len(A) :
             LET n == IF i = 0 THEN <<>> ELSE A[i] \o <<NL>> IN
             /\ s <= e /\ Len(SelectSeq(SubSeq(t, s + 1, e), LAMBDA c : c = NL)) <= 2
             /\ ~(s = e /\ n = <<>>)
             /\ old' = t /\ t' = Replace(t, s, e, n) /\ last' = [s |-> s, e |-> e, n |-> n]
             /\ hist' = Append(hist, [op |-> "edit", s |-> s, e |-> e, n |-> n])
             /\ IF Printing /\ Len(hist') = Depth + 1 THEN PrintT(<<"HIST", ToJson(hist')>>) ELSE TRUE

Secs(x) == DocData(Parse(x)).secs
Kinds == {"info", "styles", "events", "fonts", "graphics"}
\* Applying the delta to what was known gives, kind by kind, what the new text says.
InvDelta == LET a == Secs(old)  b == Secs(t)  q == Patch(a, Delta(a, b)) IN
            /\ \A k \in Kinds : OfKind(q, k) = OfKind(b, k)
            /\ (a = b) => (LET d == Delta(a, b) IN d.added = <<>> /\ d.modified = <<>> /\ d.removed = <<>>)
\* An adjusted range still covers its own bytes: what the edit left of them, in order, with the new text in place.
InvAdjust == \A a \in {0, last.s, last.e, Len(old)}, b \in {0, last.s, last.e, Len(old)} : a <= b =>
   LET r == Adjust(a, b, last.s, last.e, Len(last.n)) IN
   /\ 0 <= r[1] /\ r[1] <= r[2] /\ r[2] <= Len(t)
   /\ (last.e <= a \/ last.s >= b) => SubSeq(t, r[1] + 1, r[2]) = SubSeq(old, a + 1, b)
   /\ (last.e > a /\ last.s < b) =>
        SubSeq(t, r[1] + 1, r[2]) = (IF a < last.s THEN SubSeq(old, a + 1, last.s) ELSE <<>>) \o last.n
                                    \o (IF b > last.e THEN SubSeq(old, last.e + 1, b) ELSE <<>>)
InvLine == LineOf(t, Len(t)) = 1 + Len(SelectSeq(t, LAMBDA c : c = NL))
=============================================================================
