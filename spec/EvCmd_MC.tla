------------------------------ MODULE EvCmd_MC ------------------------------
(* Every short history of event commands on small documents: what a command  *)
(* does to the bytes is what it means for the events, and nothing else moves. *)
EXTENDS EvCmd, FiniteSets, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
Doc(ls) == Join(ls, <<NL>>)
D1 == Doc(<< B("; [Events]"), B("[Script Info]"), B("Title: [Events] Format:"), B("[Events]"),
             B("Format: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text"),
             B("Dialogue: 0,0:00:01.00,0:00:03.00,A,,0,0,0,,one, two"), <<>>,
             B("  Comment: 1,0:00:02.00,0:00:02.50,B,,0,0,0,F(1,2), x ") , B("Sound: 0,0:00:01.00,0:00:03.00,A,,0,0,0,,s"),
             B("Dialogue: 0,0:00:01.00,0:00:03.00,A,,0,0,0,,one, two") >>)
D2 == Doc(<< B("[Events]"), B("Format: Start, Text, End"), B("Dialogue: 0:00:01.00,a,0:00:02.00") \o <<13>>,
             B("Comment: bad,b,0:00:02.00") \o <<13>>, B("[V4+ Styles]"), B("Format: Name"), B("[Events]"),
             B("Dialogue: 0,0:00:05.00,0:00:06.00,A,,0,0,0,e,(t"), B("[Fonts]"), <<>> >>)
D3 == Doc(<< B("[Script Info]"), B("Title: x") >>)
Docs == <<D1, D2, D3>>
Ops == { [op |-> "toggle", via |-> v, idx |-> i] : v \in {"cmd"}, i \in {<<>>, <<1>>, <<0, 3, 9>>} }
  \cup { [op |-> "retime", via |-> "cmd", idx |-> <<>>, ds |-> 100, de |-> -200],
         [op |-> "retime", via |-> "exec", idx |-> <<0, 1>>, ds |-> -500, de |-> -500],
         [op |-> "split", via |-> "cmd", n |-> 0, time |-> B("0:00:01.5")],
         [op |-> "split", via |-> "cmd", n |-> 3, time |-> B("0:00:02.50")],
         [op |-> "merge", via |-> "cmd", n |-> 0, m |-> 1, sep |-> B("|")],
         [op |-> "merge", via |-> "exec", n |-> 0, m |-> 3, sep |-> <<>>],
         [op |-> "merge", via |-> "cmd", n |-> 1, m |-> 0, sep |-> <<>>],
         [op |-> "delete", via |-> "cmd", n |-> 3], [op |-> "delete", via |-> "cmd", n |-> 0],
         [op |-> "delmany", via |-> "cmd", idx |-> <<2, 0, 0, 7>>], [op |-> "delmany", via |-> "cmd", idx |-> <<>>],
         [op |-> "effect", via |-> "cmd", idx |-> <<1>>, how |-> "append", e |-> B("G(3,4)")],
         [op |-> "effect", via |-> "exec", idx |-> <<>>, how |-> "clear", e |-> <<>>],
         [op |-> "effect", via |-> "cmd", idx |-> <<>>, how |-> "prepend", e |-> B("H")],
         [op |-> "edit", via |-> "cmd", n |-> 1, mods |-> << <<"text", B("new, text")>>, <<"end", B("0:00:09.00")>> >>],
         [op |-> "edit", via |-> "cmd", n |-> 3, mods |-> << <<"style", B("Z")>>, <<"style", B("Y")>>, <<"layer", B("5")>> >>] }
VARIABLES doc, t, old, last, hist
vars == <<doc, t, old, last, hist>>
Init == doc \in 1..Len(Docs) /\ t = Docs[doc] /\ old = t /\ last = [op |-> "none"] /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E o \in Ops : /\ hist' = Append(hist, o)
                          /\ t' = Command(t, o).t
                          /\ old' = t /\ last' = o /\ doc' = doc
                          /\ Printing => PrintT(<<"HIST", ToJson(<<[op |-> "reset", t |-> Docs[doc]]>> \o hist' \o <<[op |-> "undo"], [op |-> "undo"]>>)>>)
Data(x) == [i \in 1..Len(Events(Parse(x))) |-> ItemData("events", Events(Parse(x))[i])]
Rest(x) == [DocData(Parse(x)) EXCEPT !.secs = [i \in 1..Len(@) |-> [k |-> @[i].k, items |-> IF @[i].k = "events" THEN <<>> ELSE @[i].items]]]
Cut(s, i) == SubSeq(s, 1, i - 1) \o From(s, i + 1)
Same(a, b, but) == \A f \in 1..10 : f \in but \/ a.f[f] = b.f[f]
\* effects with commas read differently from how they are edited; the frame is stated without them
Plain(e) == ~Has(e.f[9], 40)
IsToggle == last.op = "toggle"
Frame ==
  last.op # "none" =>
  LET a == Data(old)  b == Data(t)  x == Command(old, last)  N(idx) == Named(Events(Parse(old)), idx) IN
  /\ Rest(old) = Rest(t)
  /\ ~x.ok => t = old
  /\ last.op \in {"toggle", "retime", "effect"} =>
       /\ Len(a) = Len(b)
       /\ \A k \in 1..Len(a) : k \notin N(last.idx) => a[k] = b[k]
       /\ \A k \in N(last.idx) :
            CASE last.op = "toggle" -> Same(a[k], b[k], {}) /\ b[k].ty = (CASE a[k].ty = "Dialogue" -> "Comment" [] a[k].ty = "Comment" -> "Dialogue" [] OTHER -> a[k].ty)
              [] last.op = "retime" -> Same(a[k], b[k], {2, 3}) /\ a[k].ty = b[k].ty
              [] OTHER -> a[k].ty = b[k].ty /\ Same(a[k], b[k], IF Plain(a[k]) /\ Plain(b[k]) THEN {9} ELSE {9, 10})
  /\ last.op = "delete" /\ x.ok => b = Cut(a, last.n + 1)
  /\ last.op = "delmany" => b = SelectSeq(a, LAMBDA e : TRUE) \/ Len(b) < Len(a)
  /\ last.op = "delmany" => Len(b) = Len(a) - x.n
  /\ last.op = "split" /\ x.ok =>
       LET n == last.n + 1 IN
       /\ Len(b) = Len(a) + 1 /\ Cut(Cut(b, n), n) = Cut(a, n)
       /\ Same(a[n], b[n], {3}) /\ Same(a[n], b[n + 1], {2}) /\ b[n].f[3] = b[n + 1].f[2]
  /\ last.op = "merge" /\ x.ok =>
       LET n == last.n + 1  m == last.m + 1 IN
       /\ Len(b) = Len(a) - 1 /\ Cut(b, n) = Cut(Cut(a, m), n)
       /\ b[n].f[3] = a[m].f[3]
       /\ Plain(a[n]) /\ Plain(a[m]) => Same(a[n], b[n], {3, 10}) /\ b[n].f[10] = a[n].f[10] \o last.sep \o a[m].f[10]
  /\ last.op = "edit" /\ x.ok => Len(a) = Len(b) /\ Cut(a, last.n + 1) = Cut(b, last.n + 1)
\* toggling twice gives the text back
Involution == IsToggle => Command(t, last).t = old
View == <<doc, t, old, last>>
=============================================================================
