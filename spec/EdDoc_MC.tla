------------------------------ MODULE EdDoc_MC ------------------------------
(* Bounded exploration of the document model, with an observer mirror.        *)
EXTENDS EdDoc
CONSTANTS MaxLen, MaxE, MaxM
VARIABLES d, mirror, orig

\* 97 is a one-byte character; 195,169 is a two-byte one.
Words == {<<>>, <<97>>, <<195, 169>>}
Edits(t) == {[k |-> "rep", s |-> s, e |-> e, t |-> w] : s \in 0..Len(t), e \in 0..Len(t), w \in Words}
            \cup {[k |-> "ins", s |-> p, e |-> p, t |-> w] : p \in 0..(Len(t) + 1), w \in Words}
Cost(ed, t) == 1 + Len(ed.t) + Len(EditOld(t, ed))

Init == /\ d = Doc0(<<97, 97>>, [maxE |-> MaxE, maxM |-> MaxM])
        /\ mirror = d.text /\ orig = d.text

Edit == \E ed \in Edits(d.text):
          LET r == DoEdit(d, ed, IF EditOK(d.text, ed) THEN Cost(ed, d.text) ELSE 0)
          IN /\ Len(r.d.text) <= MaxLen
             /\ d' = r.d
             /\ mirror' = IF r.ok THEN ApplyNote(mirror, Note(d.text, ed)) ELSE mirror
Undo == d' = DoUndo(d).d /\ mirror' = d'.text
Redo == d' = DoRedo(d).d /\ mirror' = d'.text
Batch == \E a, b \in Edits(d.text):
           /\ Len(a.t) = 1 /\ a.k = "rep" /\ b.k = "rep" /\ Len(b.t) = 0
           /\ LET r == DoCommand(d, [k |-> "batch", cmds |-> <<a, b>>], 2)
              IN Len(r.d.text) <= MaxLen /\ d' = r.d /\ mirror' = d'.text
Next == (Edit \/ Undo \/ Redo \/ Batch) /\ orig' = orig

InvChained == Chained(d)
InvLimits == WithinLimits(d)
InvInverse == UndoRedoInverse(d)
InvMirror == mirror = d.text
InvUtf8 == \A i \in 1..Len(d.text): d.text[i] = 195 => (i < Len(d.text) /\ IsCont(d.text[i + 1]))
=============================================================================
