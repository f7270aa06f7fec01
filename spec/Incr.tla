-------------------------------- MODULE Incr --------------------------------
(* Keeping a parsed script up to date while its text is edited: the script    *)
(* after an edit is the script the new text says (AssParse), the delta is the *)
(* difference between the two, and ranges and line numbers follow the text.   *)
EXTENDS AssParse

\* Replace bytes s..e (0-based, end exclusive) of t by n.
Replace(t, s, e, n) == SubSeq(t, 1, s) \o n \o SubSeq(t, e + 1, Len(t))

\* --- difference of two scripts --------------------------------------------
Nth(secs, i) == Len(SelectSeq(SubSeq(secs, 1, i), LAMBDA x : x.k = secs[i].k))
CountK(secs, k) == Len(SelectSeq(secs, LAMBDA x : x.k = k))
\* The n-th section of kind k in secs: its index.
At(secs, k, n) == CHOOSE i \in 1..Len(secs) : secs[i].k = k /\ Nth(secs, i) = n
\* Sections are paired with their counterpart: the n-th of a kind with the n-th of that kind.
Paired(a, b, i) == Nth(a, i) <= CountK(b, a[i].k)
Mate(a, b, i) == b[At(b, a[i].k, Nth(a, i))]
Indices(n, Sel(_)) == SelectSeq([i \in 1..n |-> i], Sel)
Modified(a, b) == LET I == Indices(Len(a), LAMBDA i : Paired(a, b, i) /\ Mate(a, b, i) # a[i])
                  IN [j \in 1..Len(I) |-> <<I[j], Mate(a, b, I[j])>>]
Removed(a, b) == Indices(Len(a), LAMBDA i : ~Paired(a, b, i))
Added(a, b) == LET I == Indices(Len(b), LAMBDA i : ~Paired(b, a, i)) IN [j \in 1..Len(I) |-> b[I[j]]]
Delta(a, b) == [added |-> Added(a, b), modified |-> Modified(a, b), removed |-> Removed(a, b)]

\* What a holder of the old sections gets by applying a delta.
Patch(a, d) ==
  LET step(i) == LET M == {j \in 1..Len(d.modified) : d.modified[j][1] = i}
                 IN IF M # {} THEN <<d.modified[CHOOSE j \in M : TRUE][2]>>
                    ELSE IF \E j \in 1..Len(d.removed) : d.removed[j] = i THEN <<>> ELSE <<a[i]>>
      RECURSIVE go(_)
      go(i) == IF i > Len(a) THEN d.added ELSE step(i) \o go(i + 1)
  IN go(1)
OfKind(secs, k) == SelectSeq(secs, LAMBDA x : x.k = k)

\* --- ranges ---------------------------------------------------------------
\* Where the range a..b of the old text is once s..e has become len bytes.
Adjust(a, b, s, e, len) ==
  LET d == len - (e - s) IN
  IF e <= a THEN <<a + d, b + d>>
  ELSE IF s >= b THEN <<a, b>>
  ELSE << MinOf(a, s), IF e >= b THEN s + len ELSE b + d >>

\* The kinds of the sections an edit touches: it overlaps them, or adds at their end.
Touches(x, s, e) == x # <<>> /\ ((s < x[2] /\ e > x[1]) \/ (s = e /\ s = x[2]))
LineOf(t, o) == 1 + Len(SelectSeq(SubSeq(t, 1, MinOf(o, Len(t))), LAMBDA c : c = NL))
=============================================================================
