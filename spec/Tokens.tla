------------------------------- MODULE Tokens -------------------------------
(* The tokenizer: a script cut into tokens, each with its place.              *)
(* ctx: "doc" between things, "sect" in a header, "value" after a colon,      *)
(* "over" in an override block.                                               *)
EXTENDS Bytes, Utf8

IsEnd(c) == c = 10 \/ c = 13
\* Where reading stands: next byte i (1-based), its line and column, and whether a \r was just read.
At0(t) == [i |-> IF StartsWith(t, <<239, 187, 191>>) THEN 4 ELSE 1, line |-> 1, col |-> 1, cr |-> FALSE]
Advance(t, p) ==
  LET c == t[p.i] IN
  [i |-> p.i + Width(c), cr |-> c = 13,
   line |-> IF c = 13 \/ (c = 10 /\ ~p.cr) THEN p.line + 1 ELSE p.line,
   col |-> IF IsEnd(c) THEN 1 ELSE p.col + 1]
RECURSIVE To(_, _, _)
To(t, p, j) == IF p.i >= j THEN p ELSE To(t, Advance(t, p), j)

\* First place at or after i where a byte of S stands, the end of the text if none.
RECURSIVE Until(_, _, _)
Until(t, i, S) == IF i > Len(t) \/ t[i] \in S THEN i ELSE Until(t, i + 1, S)
RECURSIVE BlanksFrom(_, _)
BlanksFrom(t, i) == IF i > Len(t) \/ IsEnd(t[i]) THEN i ELSE LET w == WsAt(t, i) IN IF w = 0 THEN i ELSE BlanksFrom(t, i + w)
\* Past an override block that opens at i: the brace that closes it, or the end.
RECURSIVE CloseFrom(_, _, _)
CloseFrom(t, i, d) == IF i > Len(t) THEN i
                      ELSE IF t[i] = 123 THEN CloseFrom(t, i + 1, d + 1)
                      ELSE IF t[i] = 125 THEN (IF d = 1 THEN i ELSE CloseFrom(t, i + 1, d - 1))
                      ELSE CloseFrom(t, i + 1, d)

Delims == {58, 44, 123, 125, 91, 93, 10, 13}      \* : , { } [ ] and line ends
ValueDelims == {44, 10, 13, 123, 91}
AllOf(x, extra) == x # <<>> /\ \A k \in 1..Len(x) : IsDigit(x[k]) \/ x[k] \in extra
HexBody(x) == LET b == Drop(x, 2) IN IF EndsWith(b, <<38>>) THEN SubSeq(b, 1, Len(b) - 1) ELSE b
IsHexValue(x) == /\ StartsWith(x, <<38, 72>>)
                 /\ LET b == HexBody(x) IN b # <<>> /\ Len(b) <= 8 /\ Len(b) % 2 = 0 /\ \A k \in 1..Len(b) : IsHex(b[k])
TextType(x) == IF IsHexValue(x) THEN "HexValue" ELSE IF AllOf(x, {46, 45}) THEN "Number"
               ELSE IF IsBlank(x) THEN "Whitespace" ELSE "Text"
ValueType(x) == IF AllOf(x, {46, 45, 58}) THEN "Number" ELSE IF IsBlank(x) THEN "Whitespace" ELSE "Text"

\* The token at p: [ty, end, ctx].
Tok(t, i, ctx) ==
  LET c == t[i]
      text == LET j == Until(t, i, Delims) IN [ty |-> TextType(SubSeq(t, i, j - 1)), e |-> j, ctx |-> ctx]
      one(ty, k) == [ty |-> ty, e |-> i + 1, ctx |-> k]
  IN CASE c = 91 -> [ty |-> "SectionHeader", e |-> Until(t, i + 1, {93}), ctx |-> "sect"]
       [] c = 93 /\ ctx = "sect" -> one("SectionClose", "doc")
       [] c = 58 /\ ctx = "doc" -> one("Colon", "value")
       [] c = 123 -> [ty |-> "OverrideBlock", e |-> CloseFrom(t, i + 1, 1), ctx |-> "over"]
       [] c = 125 /\ ctx = "over" -> one("OverrideClose", "doc")
       [] c = 44 -> one("Comma", ctx)
       [] IsEnd(c) -> [ty |-> "Newline", e |-> IF c = 13 /\ i < Len(t) /\ t[i + 1] = 10 THEN i + 2 ELSE i + 1, ctx |-> "doc"]
       [] ctx = "doc" /\ (c = 59 \/ (c = 33 /\ i < Len(t) /\ t[i + 1] = 58)) ->
            [ty |-> "Comment", e |-> Until(t, i, {10, 13}), ctx |-> ctx]
       [] c \in {125, 93} -> one("Text", ctx)
       [] ctx = "value" -> LET j == Until(t, i, ValueDelims) IN [ty |-> ValueType(SubSeq(t, i, j - 1)), e |-> j, ctx |-> ctx]
       [] OTHER -> text

RECURSIVE ToksFrom(_, _, _, _)
ToksFrom(t, p0, ctx, acc) ==
  LET p == IF ctx = "value" THEN p0 ELSE To(t, p0, BlanksFrom(t, p0.i)) IN
  IF p.i > Len(t) THEN [toks |-> acc, at |-> p]
  ELSE LET k == Tok(t, p.i, ctx) IN
       ToksFrom(t, To(t, p, k.e), k.ctx, Append(acc, [ty |-> k.ty, s |-> p.i - 1, e |-> k.e - 1, line |-> p.line, col |-> p.col]))
Tokens(t) == ToksFrom(t, At0(t), "doc", <<>>)

\* A position that follows a text: only \n ends lines here.
Follow(t) == [off |-> Len(t), line |-> 1 + Len(SelectSeq(t, LAMBDA c : c = 10)),
              col |-> 1 + Len(SelectSeq(From(t, FindLast(t, 10, Len(t)) + 1), LAMBDA c : ~IsCont(c)))]
=============================================================================
