------------------------------- MODULE EdDoc -------------------------------
(* The editable document: its text (a sequence of UTF-8 bytes), the undo and  *)
(* redo histories with their configured limits, the cursor, and the           *)
(* notifications sent for each edit.  Pure functions from a document state    *)
(* and an operation to the next state; EdDoc_MC explores them, EdDoc_Gen      *)
(* generates behaviours from them and EdDoc_TV validates recorded traces.     *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Splice(t, s, e, new) == SubSeq(t, 1, s) \o new \o SubSeq(t, e + 1, Len(t))

\* Byte b continues a multi-byte UTF-8 character.
IsCont(b) == b >= 128 /\ b < 192
Boundary(t, p) == p = Len(t) \/ (p < Len(t) /\ ~IsCont(t[p + 1]))

Lo(a, b) == IF a <= b THEN a ELSE b
Hi(a, b) == IF a <= b THEN b ELSE a

\* An edit is [k, s, e, t]: replace bytes s..e-1 by t. Ranges are normalised.
EditOK(t, ed) == /\ Hi(ed.s, ed.e) <= Len(t)
                 /\ Boundary(t, ed.s) /\ Boundary(t, ed.e)
EditText(t, ed) == Splice(t, Lo(ed.s, ed.e), Hi(ed.s, ed.e), ed.t)
EditCursor(ed) == Lo(ed.s, ed.e) + Len(ed.t)
EditOld(t, ed) == SubSeq(t, Lo(ed.s, ed.e) + 1, Hi(ed.s, ed.e))

Unlimited == [maxE |-> 50, maxM |-> 0]
Doc0(t, lim) == [text |-> t, undo |-> <<>>, redo |-> <<>>, cur |-> -1, lim |-> lim, mod |-> FALSE]

SumCost(q) == FoldSeq(LAMBDA x, acc: x.cost + acc, 0, q)

\* The newest entries that fit both limits: drop the oldest, never more than needed.
RECURSIVE FitPrefix(_, _, _, _)
FitPrefix(q, n, sum, lim) ==
  IF n = Len(q) THEN n
  ELSE IF n + 1 > lim.maxE THEN n
  ELSE IF lim.maxM > 0 /\ sum + q[n + 1].cost > lim.maxM THEN n
  ELSE FitPrefix(q, n + 1, sum + q[n + 1].cost, lim)
Trim(q, lim) == SubSeq(q, 1, FitPrefix(q, 0, 0, lim))

Entry(pre, post, curB, curA, cost) ==
  [pre |-> pre, post |-> post, curB |-> curB, curA |-> curA, cost |-> cost]

\* A successful edit: the new text is recorded, everything undone is forgotten.
Push(d, post, curA, cost) ==
  LET e == Entry(d.text, post, d.cur, curA, cost)
  IN [d EXCEPT !.text = post, !.redo = <<>>, !.undo = Trim(<<e>> \o d.undo, d.lim),
               !.cur = IF curA = -1 THEN d.cur ELSE curA, !.mod = TRUE]

DoEdit(d, ed, cost) ==
  IF EditOK(d.text, ed) THEN [ok |-> TRUE, d |-> Push(d, EditText(d.text, ed), EditCursor(ed), cost)]
  ELSE [ok |-> FALSE, d |-> d]

DoUndo(d) ==
  IF d.undo = <<>> THEN [ok |-> FALSE, d |-> d]
  ELSE LET e == Head(d.undo)
       IN [ok |-> TRUE, d |-> [d EXCEPT !.text = e.pre, !.undo = Tail(@), !.redo = <<e>> \o @,
                                        !.cur = e.curB, !.mod = TRUE]]
DoRedo(d) ==
  IF d.redo = <<>> THEN [ok |-> FALSE, d |-> d]
  ELSE LET e == Head(d.redo)
       IN [ok |-> TRUE, d |-> [d EXCEPT !.text = e.post, !.redo = Tail(@), !.undo = <<e>> \o @,
                                        !.cur = IF e.curA = -1 THEN @ ELSE e.curA, !.mod = TRUE]]
DoSetLimits(d, lim) == [d EXCEPT !.undo = <<>>, !.redo = <<>>, !.lim = lim]
DoClear(d) == [d EXCEPT !.undo = <<>>, !.redo = <<>>]

\* A command is a single edit or a batch of commands; a batch applies all or nothing.
RECURSIVE FlatEdits(_)
FlatEdits(c) == IF c.k = "batch" THEN FlattenSeq([i \in 1..Len(c.cmds) |-> FlatEdits(c.cmds[i])])
                ELSE <<c>>
RECURSIVE ApplyAll(_, _)
ApplyAll(t, eds) == IF eds = <<>> THEN [ok |-> TRUE, t |-> t]
                    ELSE IF ~EditOK(t, Head(eds)) THEN [ok |-> FALSE, t |-> t]
                    ELSE ApplyAll(EditText(t, Head(eds)), Tail(eds))
DoCommand(d, c, cost) ==
  LET eds == FlatEdits(c)
      r   == ApplyAll(d.text, eds)
  IN IF ~r.ok THEN [ok |-> FALSE, d |-> d]
     ELSE IF eds = <<>> THEN [ok |-> TRUE, d |-> d]
     ELSE [ok |-> TRUE, d |-> Push(d, r.t, EditCursor(eds[Len(eds)]), cost)]

\* The notification that describes an edit.
Note(t, ed) == [k |-> ed.k, s |-> Lo(ed.s, ed.e), e |-> Hi(ed.s, ed.e), new |-> ed.t, old |-> EditOld(t, ed)]
\* What an observer that mirrors the document does with a notification.
ApplyNote(t, n) == Splice(t, n.s, n.e, n.new)

Mem(d) == SumCost(d.undo) + SumCost(d.redo)

(* ------------------------------ properties ------------------------------ *)
\* Histories chain: undoing walks back through exactly the texts that existed.
Chained(d) ==
  /\ d.undo # <<>> => Head(d.undo).post = d.text
  /\ d.redo # <<>> => Head(d.redo).pre = d.text
  /\ \A i \in 1..(Len(d.undo) - 1): d.undo[i].pre = d.undo[i + 1].post
  /\ \A i \in 1..(Len(d.redo) - 1): d.redo[i].post = d.redo[i + 1].pre
WithinLimits(d) ==
  /\ Len(d.undo) + Len(d.redo) <= d.lim.maxE
  /\ d.lim.maxM > 0 => Mem(d) <= d.lim.maxM
UndoRedoInverse(d) ==
  /\ d.undo # <<>> => DoRedo(DoUndo(d).d).d.text = d.text
  /\ d.redo # <<>> => DoUndo(DoRedo(d).d).d.text = d.text
=============================================================================
