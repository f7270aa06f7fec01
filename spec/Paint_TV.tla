------------------------------ MODULE Paint_TV ------------------------------
EXTENDS Paint, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
Wrong(r, px, n) == {k \in 1..Cells(r) : ~Close(px[k], r.img[k], n)}
Paints(r) ==
  LET es == Stack(r.evs, r.t)
      px == TLCEval(Frame(r, r.t))
      w == Wrong(r, px, Len(es))
      k == CHOOSE x \in w : \A y \in w : x <= y
      full == {i \in 1..Cells(r) : px[i] # Unknown}
      kinds == {es[i].kind : i \in 1..Len(es)} IN
  [st |-> [ok |-> TRUE],
   tag |-> IF es = <<>> THEN "paint/nothing" ELSE IF \A i \in full : px[i] = Blank THEN "paint/unseen" ELSE IF full = {} THEN "paint/unclear"
           ELSE "paint/" \o (IF Len(es) > 1 THEN "several" ELSE es[1].kind \o (IF es[1].clip # <<>> THEN "+clip" ELSE "") \o (IF es[1].fad # <<>> THEN "+fade" ELSE "")),
   err |-> IF Len(r.img) # Cells(r) THEN "pixels: " \o ToString(Len(r.img))
           ELSE IF w = {} THEN "" ELSE ToString(Cardinality(w)) \o " pixels wrong, first " \o ToString(<<(k - 1) % r.w, (k - 1) \div r.w>>) \o
             " expected " \o ToString([j \in 1..4 |-> (px[k][j] + 128) \div 256]) \o " observed " \o ToString(r.img[k])]
Reset(r) == [st |-> [ok |-> TRUE], err |-> "", tag |-> "reset"]
Step(s, r) == Paints(r)
INSTANCE TraceRun
=============================================================================
