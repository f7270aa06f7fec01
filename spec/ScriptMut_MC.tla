---------------------------- MODULE ScriptMut_MC ----------------------------
(* Every short history of mutations of one small script.                      *)
EXTENDS ScriptMut, FiniteSets, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
Newl == <<NL>>
L1 == B("[Script Info]")
L2 == B("Title: a")
L3 == B("Empty:")
L4 == B("[V4+ Styles]")
L5 == B("Format: Name, Bold")
L6 == B("Style: A,0")
L7 == B("Style: B,1")
L8 == B("[Events]")
L9 == B("Format: Start, Text")
L10 == B("Dialogue: 1,x")
L11 == B("Comment: 2,y, z")
Text == Join(<<L1, L2, L3, L4, L5, L6, L7, L8, L9, L10, L11>>, Newl)
Off(t) == FindSub(Text, t, 1) - 1
P == Parse(Text)
LS == ParseLines(Text)
Info0 == [i \in 1..Len(P.secs) |-> IF P.secs[i].k = "info" THEN <<InfoFrom(LS, Text, P.secs[i]), InfoLast(LS, Text, P.secs[i]), 2, 1>> ELSE NoPlace]
S0 == Mut0(P, Info0)
NewStyle == ItemData("styles", StyleRec(StyleNames, << B("N") >>, <<>>, NoPlace))
NewEvent == ItemData("events", EventRec(EventNames, << B("0") >>, "Sound", NoPlace))
Lines2 == << B("Style: C,-1"), B("Dialogue: 3,new, text"), B("Title: b"), B("Empty: c"), B("Added: d"), B("Style: short"), B("junk") >>
At == << Off(L2), Off(L6), Off(L7) + 2, Off(L10), Off(L11) + 5, Off(L8), Off(L4) + 1 >>
UpdateOps == {<<At[i], Lines2[j], 9>> : i \in 1..Len(At), j \in 1..Len(Lines2)}
Ops ==
  { [op |-> "track", on |-> TRUE], [op |-> "track", on |-> FALSE], [op |-> "snap"], [op |-> "restore"], [op |-> "diff"],
    [op |-> "add", k |-> "styles", d |-> NewStyle], [op |-> "adds", k |-> "events", ds |-> <<NewEvent, NewEvent>>],
    [op |-> "add_section", k |-> "events", ds |-> <<NewEvent>>], [op |-> "remove_section", sec |-> 0], [op |-> "remove_section", sec |-> 1],
    [op |-> "remove_section", sec |-> 9], [op |-> "sfmt", f |-> << B("Bold"), B("Name") >>],
    [op |-> "atomic", ops |-> << <<At[4], Lines2[2], 1>>, <<At[2], Lines2[1], 2>> >>, styles |-> << <<NewStyle>> >>, events |-> <<>>],
    [op |-> "atomic", ops |-> << <<At[4], Lines2[2], 1>>, <<At[2], Lines2[2], 2>> >>, styles |-> << <<NewStyle>> >>, events |-> << <<NewEvent>> >>],
    [op |-> "batch", ops |-> << <<At[5], Lines2[2], 1>>, <<At[2], Lines2[1], 2>>, <<At[2], Lines2[6], 3>>, <<At[1], Lines2[5], 4>> >>] }
  \cup {[op |-> "update", at |-> x[1], line |-> x[2], no |-> x[3]] : x \in UpdateOps}

VARIABLES s, snap, hist, prev
Apply(z, o) ==
  CASE o.op = "track" -> [z EXCEPT !.track = o.on]
    [] o.op = "add" -> AddItems(z, o.k, <<o.d>>).st
    [] o.op = "adds" -> AddItems(z, o.k, o.ds).st
    [] o.op = "add_section" -> AddSection(z, o.k, o.ds)
    [] o.op = "remove_section" -> IF o.sec < Len(z.secs) THEN RemoveSection(z, o.sec) ELSE z
    [] o.op = "sfmt" -> [z EXCEPT !.sfmt = <<o.f>>]
    [] o.op = "atomic" -> Atomic(z, o.ops, o.styles, o.events).st
    [] o.op = "batch" -> Batch(z, o.ops).st
    [] o.op = "update" -> Update(z, o.at, o.line, o.no).st
    [] o.op = "restore" -> snap
    [] OTHER -> z
Init == s = S0 /\ snap = S0 /\ hist = <<>> /\ prev = S0
Next == /\ Len(hist) < MaxLen
        /\ \E o \in Ops : /\ hist' = Append(hist, o)
                          /\ s' = Apply(s, o)
                          /\ snap' = IF o.op = "snap" THEN s ELSE snap
                          /\ prev' = s
                          /\ Printing => PrintT(<<"HIST", ToJson(<<[op |-> "reset", t |-> Text]>> \o hist')>>)
Count(z) == [i \in 1..Len(z.secs) |-> Len(z.secs[i].items)]
LastOp == hist[Len(hist)]
\* An update touches one item of one section, or adds one field.
InvOne == (hist # <<>> /\ LastOp.op = "update") =>
  /\ Len(s.secs) = Len(prev.secs)
  /\ Cardinality({<<i, j>> \in {<<a, b>> \in (1..Len(s.secs)) \X (1..9) : b <= MaxOf(Len(s.secs[a].items), Len(prev.secs[a].items))} :
        j > Len(prev.secs[i].items) \/ s.secs[i].items[j] # prev.secs[i].items[j]}) <= 1
\* All or nothing: an atomic batch that is refused leaves no trace, one that is accepted is recorded whole.
InvAtomic == (hist # <<>> /\ LastOp.op = "atomic") =>
  LET a == Atomic(prev, LastOp.ops, LastOp.styles, LastOp.events) IN
  IF a.err # "" THEN s = prev ELSE (prev.track => Len(s.chg) = Len(prev.chg) + Len(LastOp.ops))
\* Nothing is recorded while tracking is off; places never change.
InvSilent == (hist # <<>> /\ ~prev.track /\ LastOp.op # "restore") => s.chg = prev.chg
\* An empty difference means the same sections.
InvDiff == (Diff(s, snap) = <<>>) = (s.secs = snap.secs)
=============================================================================
