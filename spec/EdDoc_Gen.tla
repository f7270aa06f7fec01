----------------------------- MODULE EdDoc_Gen -----------------------------
(* Every operation sequence of the document model up to a depth, printed as   *)
(* histories to be replayed into the implementation.                          *)
EXTENDS EdDoc, Json, IOUtils
Mode == IOEnv.GENMODE
Depth == atoi(IOEnv.GENDEPTH)
VARIABLES d, hist

W1 == <<97>>
W2 == <<195, 169, 98>>
Start == <<120, 195, 169, 121>>

Ed(op, s, e, t) == [op |-> op, s |-> s, e |-> e, t |-> t]
Rep == CASE Mode = "inc" -> "inc" [] OTHER -> "rep"
Ins == CASE Mode = "inc" -> "iins" [] OTHER -> "ins"
Del == CASE Mode = "inc" -> "idel" [] OTHER -> "del"
Sub(k, s, e, t) == [k |-> k, s |-> s, e |-> e, t |-> t]
Batch(cs) == [op |-> "cmd", k |-> "batch", s |-> 0, e |-> 0, t |-> <<>>, cmds |-> cs]

EditOps(t) ==
  IF Mode = "batch" THEN
    { Batch(<<Sub("ins", 0, 0, W1), Sub("del", 0, Len(t), <<>>)>>),
      Batch(<<Sub("rep", 0, Len(t), W2), Sub("ins", 0, 0, W1)>>),
      Batch(<<Sub("ins", 0, 0, W1), Sub("del", 0, 99, <<>>)>>),
      Batch(<<Sub("del", 0, Len(t), <<>>), Sub("ins", 3, 3, W1)>>),
      Ed(Ins, Len(t), Len(t), W1), Ed(Rep, 0, Lo(1, Len(t)), W2) }
  ELSE
    { Ed(Ins, 0, 0, W1), Ed(Ins, Len(t), Len(t), W2), Ed(Rep, 0, Len(t), W1), Ed(Rep, 0, Lo(1, Len(t)), W2),
      Ed(Rep, Lo(1, Len(t)), Len(t), <<>>), Ed(Del, 0, Lo(1, Len(t)), <<>>), Ed(Del, 2, 99, <<>>) }
HistOps == {[op |-> "undo"], [op |-> "redo"]}

Limits == IF Mode = "limits" THEN {<<2, 0>>, <<3, 250>>} ELSE {<<50, 0>>}
ResetOp(x) == [op |-> "reset", t |-> Start, cfg |-> Mode = "limits", maxe |-> x[1], maxm |-> x[2], arena |-> 0]

Apply(o) == IF o.op = "undo" THEN DoUndo(d).d ELSE IF o.op = "redo" THEN DoRedo(d).d
            ELSE IF o.op = "cmd" THEN DoCommand(d, o, 0).d
            ELSE DoEdit(d, [k |-> o.op, s |-> o.s, e |-> o.e, t |-> o.t], 0).d

Init == /\ d = Doc0(Start, Unlimited)
        /\ hist \in {<<ResetOp(x)>> : x \in Limits}
Next == /\ Len(hist) <= Depth
        /\ \E o \in EditOps(d.text) \cup HistOps:
             /\ d' = Apply(o)
             /\ hist' = Append(hist, o)
             /\ IF Len(hist') = Depth + 1 THEN PrintT(<<"HIST", ToJson(hist')>>) ELSE TRUE
=============================================================================
