----------------------------- MODULE DocCmd_MC -----------------------------
(* Every short history of style and script-information commands on small      *)
(* documents: what is read afterwards is what the command says, and the rest   *)
(* reads as before.                                                           *)
EXTENDS DocCmd, FiniteSets, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
Doc(ls) == Join(ls, <<NL>>)
D1 == Doc(<< B("; PlayResX: 1"), B("[Script Info]"), B("Title: Style: A,"), B("!: PlayResX: 5"), B("  PlayResX :7 "), B("; Title: c"), <<>>,
             B("[V4+ Styles]"), B("; Style: A,x,1"), B("Format: Name, Fontname , fontsize"), B("Style: AB,F1,1"), B(" Style:A ,F2, 2"), B("Style: *A,C,F3,3"), B("Style: A,short"), <<>>,
             B("[Events]"), B("Format: Start, Style, Text"), B("Dialogue: 0:00:01.00, A ,x,A,y"), B("Comment: A,AB,Style: A,"), B("Dialogue: 1,A,[V4+ Styles]") >>)
D2 == Doc(<< B("[Script Info]"), B("PlayResX: 640") \o <<13>>, B("PlayResX: 1") \o <<13>>, B("PlayResY: x") \o <<13>>, B("[Events]") \o <<13>>, B("Dialogue: 0,1,2,A,n,0,0,0,e,A") \o <<13>>, <<13>> >>) \o <<NL>>
D3 == Doc(<< B("[V4 Styles]"), B("Format: Fontsize, Name, Odd"), B("Style: 12,A,o"), B("[Fonts]") >>)
D4 == B("[Script Info]")
D5 == BOM \o Doc(<< B("[Events]"), B("[V4+ Styles]") >>)
Docs == <<D1, D2, D3, D4, D5>>
AA == B("A")
Ops == { [op |-> "create", name |-> B("N"), ups |-> << <<B("Fontsize"), B("33")>>, <<B("Bold"), B("-1")>> >>],
         [op |-> "edit", name |-> AA, ups |-> << <<B("FontName"), B("G")>>, <<B("Angle"), B("9")>> >>],
         [op |-> "edit", name |-> B("C"), ups |-> << <<NName, AA>> >>], [op |-> "edit", name |-> B("B"), ups |-> <<>>],
         [op |-> "delete", name |-> AA], [op |-> "delete", name |-> B("C")],
         [op |-> "clone", name |-> AA, to |-> B("N")], [op |-> "clone", name |-> B("C"), to |-> B("AB")],
         [op |-> "apply", name |-> AA, to |-> B("N"), filter |-> <<>>], [op |-> "apply", name |-> AA, to |-> B("AB"), filter |-> << B("A,y") >>],
         [op |-> "setstyle", name |-> AA, line |-> B("Style: N,F9,9")], [op |-> "addstyle", line |-> B("Style: Z,F8,8")],
         [op |-> "addevent", line |-> B("Dialogue: 5,A,new")], [op |-> "text", old |-> AA, new |-> B("Q")], [op |-> "text", old |-> B("Title"), new |-> B("Q")],
         [op |-> "iset", key |-> KResX, val |-> B("800")], [op |-> "iset", key |-> B("Title"), val |-> <<>>], [op |-> "iset", key |-> KWrap, val |-> B(" 2")],
         [op |-> "idel", key |-> KResX], [op |-> "idel", key |-> B("Title")] }
Via(o) == IF o.op \in {"addstyle", "setstyle", "addevent", "text"} THEN o @@ [via |-> "doc"] ELSE o @@ [via |-> "cmd"]
VARIABLES doc, t, old, last, hist
vars == <<doc, t, old, last, hist>>
Init == doc \in 1..Len(Docs) /\ t = Docs[doc] /\ old = t /\ last = [op |-> "none"] /\ hist = <<>>
Reads == << [op |-> "iget", key |-> KResX], [op |-> "iall"], [op |-> "res"], [op |-> "undo"], [op |-> "iall"], [op |-> "undo"] >>
Next == /\ Len(hist) < MaxLen
        /\ \E o \in Ops : /\ hist' = Append(hist, Via(o))
                          /\ t' = Change(t, o).t
                          /\ old' = t /\ last' = o /\ doc' = doc
                          /\ Printing => PrintT(<<"HIST", ToJson(<<[op |-> "reset", t |-> Docs[doc]]>> \o hist' \o Reads)>>)
Sty(x) == LET S == StylesOf(Parse(x)) IN [i \in 1..Len(S) |-> ItemData("styles", S[i])]
Evs(x) == LET S == Events(Parse(x)) IN [i \in 1..Len(S) |-> ItemData("events", S[i])]
Inf(x) == InfoAll(Parse(x))
Cut(s, i) == SubSeq(s, 1, i - 1) \o From(s, i + 1)
FieldNo(f) == Pos(StyleNames, f)
Shows(st, told, fmt) == \A i \in 1..Len(StyleNames) : st.f[i] = (IF Pos(fmt, StyleNames[i]) = 0 THEN <<>> ELSE BuiltField(StyleNames[i], told))
Frame ==
  last.op # "none" =>
  LET x == Change(old, last)  P == Parse(old)  a == Sty(old)  b == Sty(t) IN
  /\ ~x.ok => t = old
  /\ last.op \notin {"apply", "addevent", "text"} => Evs(old) = Evs(t)
  /\ last.op \notin {"iset", "idel"} => Inf(old) = Inf(t)
  /\ last.op \in {"apply", "addevent", "text", "iset", "idel"} => a = b
  /\ last.op = "create" /\ x.ok => \E i \in 1..Len(b) : Cut(b, i) = a /\ b[i].f[1] = B("N")
                                   /\ Shows(b[i], Append(last.ups, <<NName, last.name>>), StylesOf(Parse(t))[i].fmt)
  /\ last.op = "edit" /\ x.ok =>
       LET i == Named1(P, last.name)  fmt == StylesOf(P)[i].fmt IN
       /\ Len(a) = Len(b) /\ Cut(a, i) = Cut(b, i)
       /\ \A f \in 1..Len(StyleNames) :
            b[i].f[f] = (LET K == {j \in 1..Len(last.ups) : SameNoCase(last.ups[j][1], StyleNames[f]) /\ Pos(fmt, StyleNames[f]) # 0} IN
                         IF K = {} THEN a[i].f[f] ELSE last.ups[CHOOSE j \in K : TRUE][2])
  /\ last.op = "delete" /\ x.ok => b = Cut(a, Named1(P, last.name))
  /\ last.op = "clone" /\ x.ok => LET i == Named1(P, last.name) IN Cut(b, i + 1) = a /\ b[i + 1] = [a[i] EXCEPT !.f[1] = last.to]
  /\ last.op = "apply" => Len(Evs(old)) = Len(Evs(t)) /\ \A k \in 1..Len(Evs(old)) :
       LET e == Evs(old)[k] IN Evs(t)[k] \in {e, [e EXCEPT !.f[4] = IF e.f[4] = last.name THEN last.to ELSE e.f[4]]}
                               /\ (last.filter = <<>> => Evs(t)[k].f[4] = (IF e.f[4] = last.name THEN last.to ELSE e.f[4]))
  /\ last.op = "addevent" => Len(Evs(t)) - Len(Evs(old)) \in {0, 1}
  /\ last.op = "text" => Len(Evs(old)) = Len(Evs(t)) /\ Cardinality({k \in 1..Len(Evs(t)) : Evs(t)[k] # Evs(old)[k]}) = x.n
  /\ last.op = "iset" /\ x.ok =>
       /\ InfoGet(Parse(t), last.key) = <<Trim(last.val)>>
       /\ \A i \in 1..Len(Inf(old)) : Inf(old)[i][1] # last.key => Inf(old)[i] \in {Inf(t)[j] : j \in 1..Len(Inf(t))}
       /\ Len(Inf(t)) = Len(Inf(old)) + (IF Keyed(P, last.key) = {} THEN 1 ELSE 0)
  /\ last.op = "idel" => Inf(t) = SelectSeq(Inf(old), LAMBDA e : e[1] # last.key)
View == <<doc, t, old, last>>
=============================================================================
