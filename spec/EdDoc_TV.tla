------------------------------ MODULE EdDoc_TV ------------------------------
(* Validates traces of the real document against EdDoc.  PROP selects which   *)
(* observations the run judges; the others are adopted from the trace, so     *)
(* that each property is decided on its own.                                  *)
EXTENDS EdDoc, Json, IOUtils
Prop == IOEnv.PROP
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov

\* Edit operations by entry point; every one denotes the same abstract edit.
Kind(op) == CASE op \in {"ins", "iins", "fins", "qins"} -> "ins"
              [] op \in {"del", "idel", "fdel", "qdel"} -> "del"
              [] op \in {"rep", "inc", "safe", "frep", "qrep"} -> "rep"
              [] op \in {"cmd", "xbatch"} -> "cmd"
              [] OTHER -> op
\* How each entry point reports the edit to observers.
NoteKind(op) == CASE op \in {"ins"} -> "ins"
                  [] op \in {"del", "fdel"} -> "del"
                  [] OTHER -> "rep"
EdOf(r) == [k |-> Kind(r.op), s |-> r.s, e |-> IF Kind(r.op) = "ins" THEN r.s ELSE r.e,
            t |-> IF Kind(r.op) = "del" THEN <<>> ELSE r.t]

\* Comparisons: sequence of <<name, expected, observed>>; first difference is reported.
RECURSIVE FirstDiff(_)
FirstDiff(cs) == IF cs = <<>> THEN ""
                 ELSE IF cs[1][2] # cs[1][3]
                      THEN cs[1][1] \o ": expected " \o ToString(cs[1][2]) \o " observed " \o ToString(cs[1][3])
                      ELSE FirstDiff(Tail(cs))

Owns(p) == Prop \in p
If(c, s) == IF c THEN s ELSE <<>>

\* Adopt what was observed for the parts this run does not judge.
AdoptCur(d, r) == [d EXCEPT !.cur = r.cur]

IsEdit(k) == k \in {"ins", "del", "rep", "cmd"}

\* --- edits -----------------------------------------------------------------
SpecEdit(d, r) == IF Kind(r.op) = "cmd" THEN DoCommand(d, r, r.cost) ELSE DoEdit(d, EdOf(r), r.cost)

EditStep(d, r) ==
  LET x    == SpecEdit(d, r)
      okO  == r.res = "ok"
      judgeText == Owns({"E03", "E05", "E13"})
      \* text and outcome as judged, or adopted
      ok   == IF judgeText THEN x.ok ELSE okO
      post == IF judgeText THEN x.d.text ELSE r.text
      cost == r.cost
      noop == Kind(r.op) = "cmd" /\ FlatEdits(r) = <<>>
      d1   == IF ok /\ ~noop THEN Push(d, post, r.cur, cost) ELSE [d EXCEPT !.text = post]
      d2   == AdoptCur(d1, r)
      note == Note(d.text, EdOf(r))
      mirrored == IF r.ev = <<>> THEN <<>> ELSE
                  [k |-> r.ev[1].k, s |-> r.ev[1].s, e |-> r.ev[1].e, new |-> r.ev[1].new, old |-> r.ev[1].old]
      cs == If(judgeText, << <<"outcome", IF x.ok THEN "ok" ELSE "err", r.res>>,
                             <<"text", x.d.text, r.text>>,
                             <<"length", Len(x.d.text), r.len>>,
                             <<"range reads back", TRUE, r.same>>,
                             <<"modified", (x.ok /\ ~noop) \/ d.mod, r.mod>> >>)
         \o If(Owns({"E01", "E05", "E13"}),
               << <<"can undo", d2.undo # <<>>, r.cu>>, <<"can redo", d2.redo # <<>>, r.cr>> >>)
         \o If(Owns({"E13"}) /\ Kind(r.op) = "cmd" /\ x.ok,
               << <<"cursor the command reports", IF noop THEN -1 ELSE EditCursor(FlatEdits(r)[Len(FlatEdits(r))]), r.nc>>,
                  <<"change the command reports", ~noop, r.chg>> >>)
         \o If(Owns({"E02"}) , << <<"undo count", Len(d2.undo), r.uc>>, <<"redo count", Len(d2.redo), r.rc>>,
                                 <<"memory", Mem(d2), r.mem>> >>)
         \o If(Owns({"E04", "E05"}) /\ Kind(r.op) # "cmd",
               IF okO /\ Len(r.ev) # 1 THEN << <<"number of notifications", 1, Len(r.ev)>> >>
               ELSE IF okO THEN << <<"notification", [note EXCEPT !.k = NoteKind(r.op)], mirrored>>,
                              <<"mirror", ApplyNote(d.text, mirrored), r.text>>,
                              <<"length field", IF NoteKind(r.op) = "ins" THEN Len(r.t) ELSE 0, r.ev[1].len>> >>
               ELSE << <<"no notification of a rejected edit", 0, Len(r.ev)>> >>)
      err == FirstDiff(cs)
  IN [st |-> IF err = "" THEN d2 ELSE d, err |-> err,
      tag |-> r.op \o "/" \o (IF okO THEN "ok" ELSE "rejected")]

\* --- undo and redo -----------------------------------------------------------
HistStep(d, r) ==
  LET x == IF r.op = "undo" THEN DoUndo(d) ELSE DoRedo(d)
      cs == If(Owns({"E01", "E02", "E05", "E13"}),
               << <<"outcome", IF x.ok THEN "ok" ELSE "err", r.res>> >>)
         \o If(Owns({"E01", "E05", "E13"}),
               << <<"text", x.d.text, r.text>>,
                  <<"can undo", x.d.undo # <<>>, r.cu>>, <<"can redo", x.d.redo # <<>>, r.cr>>,
                  <<"cursor", x.d.cur, r.cur>> >>)
         \o If(Owns({"E02"}), << <<"undo count", Len(x.d.undo), r.uc>>, <<"redo count", Len(x.d.redo), r.rc>>,
                                 <<"memory", Mem(x.d), r.mem>> >>)
      err == FirstDiff(cs)
      adopted == IF Owns({"E01", "E02", "E05", "E13"}) THEN [x.d EXCEPT !.text = r.text, !.cur = r.cur, !.mod = r.mod]
                 ELSE [d EXCEPT !.text = r.text, !.cur = r.cur, !.mod = r.mod]
  IN [st |-> adopted, err |-> err, tag |-> r.op \o "/" \o (IF x.ok THEN "ok" ELSE "empty")]

\* --- configuration ------------------------------------------------------------
OtherStep(d, r) ==
  LET x == CASE r.op = "setcfg" -> DoSetLimits(d, [maxE |-> r.maxe, maxM |-> r.maxm])
             [] r.op = "clearhist" -> DoClear(d)
             [] r.op = "cursor" -> [d EXCEPT !.cur = r.s]
      cs == << <<"text", d.text, r.text>>, <<"can undo", x.undo # <<>>, r.cu>>, <<"can redo", x.redo # <<>>, r.cr>>,
               <<"cursor", x.cur, r.cur>> >>
            \o If(Owns({"E02"}), << <<"memory", Mem(x), r.mem>> >>)
  IN [st |-> x, err |-> FirstDiff(cs), tag |-> r.op]

Step(d, r) == IF IsEdit(Kind(r.op)) THEN EditStep(d, r)
              ELSE IF r.op \in {"undo", "redo"} THEN HistStep(d, r)
              ELSE OtherStep(d, r)

Reset(r) == LET d == Doc0(r.t, IF r.cfg THEN [maxE |-> r.maxe, maxM |-> r.maxm] ELSE Unlimited)
            IN [st |-> d, tag |-> "reset",
                err |-> FirstDiff(<< <<"text", d.text, r.text>>, <<"can undo", FALSE, r.cu>>, <<"can redo", FALSE, r.cr>>,
                                     <<"notifications", 0, Len(r.ev)>> >>)]

INSTANCE TraceRun
=============================================================================
