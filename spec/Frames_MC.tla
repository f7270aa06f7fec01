----------------------------- MODULE Frames_MC ------------------------------
(* A renderer that keeps its last unchanging frame, and one that starts from  *)
(* an earlier frame, show what a fresh renderer shows, in every history.      *)
(* A frame is represented by what it depends on.                              *)
EXTENDS Frames, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES q, kept, got, last, hist
vars == <<q, kept, got, last, hist>>
E(s, e, tx, ch, layer) == [ty |-> "Dialogue", layer |-> layer, s |-> s, e |-> e, style |-> "Default", ml |-> "0", mr |-> "0", mv |-> "0", ch |-> ch, bl |-> FALSE, eff |-> "", tx |-> tx]
P(x, c) == "{\\an7\\pos(" \o x \o ",4)\\c&H" \o c \o "&\\p1}m 0 0 l 8 0 8 8 0 8"
Order == <<"info", "styles", "events">>
Sc(info, styles, evs) == [op |-> "script", info |-> info, styles |-> styles, order |-> Order, evs |-> evs]
Sty(c) == "Style: Default,DejaVu Sans,20,&H00" \o c \o ",&H000000FF,&H00000000,&H00000000,0,0,0,0,100,100,0,0,1,0,0,7,0,0,0,1\n"
Info == "PlayResX: 64\nPlayResY: 32\n"
\* scripts of equal length, differing in one part each
Scripts == { Sc(Info, Sty("FFFFFF"), <<E(100, 200, P("1", "0000FF"), FALSE, "0"), E(150, 300, P("5", "00FF00"), FALSE, "0")>>),
             Sc(Info, Sty("FFFFFF"), <<E(100, 200, P("1", "0000FF"), FALSE, "1"), E(150, 300, P("5", "00FF00"), FALSE, "0")>>),
             Sc(Info, Sty("FFFFFF"), <<E(150, 300, P("1", "0000FF"), FALSE, "0"), E(100, 200, P("5", "00FF00"), FALSE, "0")>>),
             Sc(Info, Sty("00FFFF"), <<E(100, 300, "{\\an7\\pos(4,4)\\p1}m 0 0 l 8 0 8 8", FALSE, "0")>>),
             Sc(Info, Sty("FF00FF"), <<E(100, 300, "{\\an7\\pos(4,4)\\p1}m 0 0 l 8 0 8 8", FALSE, "0")>>),
             Sc("PlayResX: 32\nPlayResY: 32\n", Sty("FF00FF"), <<E(100, 300, "{\\an7\\pos(4,4)\\p1}m 0 0 l 8 0 8 8", FALSE, "0")>>),
             Sc("", Sty("FF00FF"), <<E(100, 300, "{\\an7\\move(0,0,300,0)\\p1}m 0 0 l 99 0 99 99", TRUE, "0"), E(120, 150, P("9", "00FF00"), FALSE, "0")>>) }
Times == {100, 120, 150, 200}
NoKey == [kind |-> "none"]
Picture(k) == [w |-> k.w, h |-> k.h, info |-> k.info, styles |-> k.styles, evs |-> k.evs, t |-> k.t]
Render(t) == Picture(Key(q, "frame", t))
Static(t) == Key(q, "frame", t).t = -1
\* the kept frame is used again if it was made from the same things
Reuse(t) == IF Static(t) /\ kept.k = Key(q, "frame", t) THEN kept.p ELSE Render(t)
\* from an earlier frame of this script: unchanged if the same events are shown and none changes
From(g, t) == IF g.w = q.w /\ g.h = q.h /\ Showing(q.script.evs, t) = Showing(q.script.evs, g.t) /\ Static(t) THEN g.p ELSE Render(t)
Init == /\ q = Fresh(64, 32) /\ kept = [k |-> NoKey, p |-> 0] /\ got = <<>> /\ last = [is |-> FALSE]
        /\ hist = <<[op |-> "reset", w |-> 64, hh |-> 32]>>
Say(o, q2, kept2, got2, last2) == q' = q2 /\ kept' = kept2 /\ got' = got2 /\ last' = last2 /\ hist' = Append(hist, o)
Next == /\ Len(hist) <= MaxLen
        /\ \/ \E s \in Scripts : Say(s, [q EXCEPT !.script = [info |-> s.info, styles |-> s.styles, order |-> s.order, evs |-> s.evs]], kept, <<>>, [is |-> FALSE])
           \/ \E w \in {64, 32} : w # q.w /\ Say([op |-> "size", w |-> w, hh |-> 32], [q EXCEPT !.w = w], kept, got, [is |-> FALSE])
           \/ \E t \in Times : LET p == Reuse(t) IN
                Say([op |-> "frame", t |-> t], q, IF Showing(q.script.evs, t) = <<>> THEN kept ELSE [k |-> IF Static(t) THEN Key(q, "frame", t) ELSE NoKey, p |-> p],
                    Append(got, [w |-> q.w, h |-> q.h, t |-> t, p |-> p]), [is |-> TRUE, t |-> t, p |-> p])
           \/ \E t \in Times : got # <<>> /\ LET p == From(got[Len(got)], t) IN
                Say([op |-> "incr", t |-> t, k |-> 0], q, kept, Append(got, [w |-> q.w, h |-> q.h, t |-> t, p |-> p]), [is |-> TRUE, t |-> t, p |-> p])
        /\ Printing /\ Len(hist') = MaxLen + 1 /\ hist'[MaxLen + 1].op \in {"frame", "incr"} =>
             PrintT(<<"HIST", ToJson(Append(hist', [op |-> "fresh", t |-> hist'[MaxLen + 1].t]))>>)
Inv == last.is => last.p = Render(last.t)
=============================================================================
