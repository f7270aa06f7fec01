------------------------------ MODULE Stream_MC ------------------------------
(* Every chunking of every text over an alphabet of telling pieces.           *)
EXTENDS Stream, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES s, all, hist
\* pieces: line ends, header pieces, a format line, halves of characters, and a byte that is never text
Chunks == { <<10>>, <<13>>, <<13, 10>>, B("[Ev"), B("ents]"), B("Format:x"), B("Dialogue: "), <<195>>, <<169>>, <<226, 128>>, <<168>>,
            <<255>>, B(";"), B("[V4++ Styles]") }
Init == s = New /\ all = <<>> /\ hist = <<[op |-> "reset"]>>
Next == /\ Len(hist) <= MaxLen
        /\ \E c \in Chunks :
             /\ s' = Feed(s, c)
             /\ all' = IF Refused(s, c) THEN all ELSE all \o c
             /\ hist' = Append(hist, [op |-> "feed", n |-> c])
             /\ IF Printing /\ Len(hist') = MaxLen + 1 THEN PrintT(<<"HIST", ToJson(Append(hist', [op |-> "finish"]))>>) ELSE TRUE
\* What was read is what one chunk with all accepted bytes gives, and what every way to cut it in two gives.
InvWhole == s = Feed(New, all)
InvCut == \A k \in 0..Len(all) : Feed(Feed(New, SubSeq(all, 1, k)), Drop(all, k)) = s
InvBuf == IsUtf8(s.buf) /\ (s.cr => s.buf = <<>>) /\ Len(s.pend) <= 3
View == <<s, all, Len(hist)>>
=============================================================================
