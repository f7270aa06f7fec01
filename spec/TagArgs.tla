------------------------------ MODULE TagArgs ------------------------------
(* The arguments each built-in override tag accepts.                          *)
EXTENDS TagText

LOCAL CM == 44

\* --- numbers ---------------------------------------------------------------
RECURSIVE SkipZeros(_, _)
SkipZeros(t, i) == IF i < Len(t) /\ t[i] = 48 THEN SkipZeros(t, i + 1) ELSE From(t, i)
RECURSIVE LexLeq(_, _, _)
LexLeq(a, c, i) == i > Len(a) \/ a[i] < c[i] \/ (a[i] = c[i] /\ LexLeq(a, c, i + 1))
\* digits t (any length) denote a number not above the one written max
AtMost(t, max) == LET d == SkipZeros(t, 1) IN Len(d) < Len(max) \/ (Len(d) = Len(max) /\ LexLeq(d, max, 1))
NoPlus(t) == IF t # <<>> /\ t[1] = 43 THEN Tail(t) ELSE t
MaxU32 == B("4294967295")
MaxI32 == B("2147483647")
U32(t) == AllDigits(NoPlus(t)) /\ AtMost(NoPlus(t), MaxU32)
\* a 32-bit signed number that is not negative
NatI32(t) == \/ AllDigits(NoPlus(t)) /\ AtMost(NoPlus(t), MaxI32)
             \/ t # <<>> /\ t[1] = 45 /\ AllDigits(Tail(t)) /\ AtMost(Tail(t), <<48>>)
U32Val(t) == SkipZeros(NoPlus(t), 1)

\* sign, digits, optionally a point with digits on both sides
Unsigned(t) == IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
Numeric(t) == LET u == Unsigned(t)  k == Find(u, 46, 1) IN
              IF k = 0 THEN AllDigits(u) ELSE AllDigits(SubSeq(u, 1, k - 1)) /\ AllDigits(From(u, k + 1))

\* a floating point number (the point may lead or trail, an exponent may follow)
ExpAt(u) == LET a == Find(u, 101, 1)  c == Find(u, 69, 1) IN IF a = 0 THEN c ELSE IF c = 0 THEN a ELSE MinOf(a, c)
Mantissa(u) == IF ExpAt(u) = 0 THEN u ELSE SubSeq(u, 1, ExpAt(u) - 1)
GoodMantissa(m) == LET k == Find(m, 46, 1)
                       digits == IF k = 0 THEN m ELSE SubSeq(m, 1, k - 1) \o From(m, k + 1) IN AllDigits(digits)
Float(t) == LET u == Unsigned(t) IN
            /\ GoodMantissa(Mantissa(u))
            /\ (ExpAt(u) = 0 \/ AllDigits(Unsigned(From(u, ExpAt(u) + 1))))
IsZero(t) == \A i \in 1..Len(Mantissa(Unsigned(t))) : Mantissa(Unsigned(t))[i] \in {48, 46}
Negative(t) == t # <<>> /\ t[1] = 45 /\ ~IsZero(t)

\* --- shapes ------------------------------------------------------------------
InParens(t) == Len(t) >= 2 /\ t[1] = LP /\ t[Len(t)] = RP
Inner(t) == SubSeq(t, 2, Len(t) - 1)
Bare(t) == IF InParens(t) THEN Trim(Inner(t)) ELSE t
Parts(t) == LET ps == Split(t, CM) IN [i \in 1..Len(ps) |-> Trim(ps[i])]
AllNumeric(ps) == \A i \in 1..Len(ps) : Numeric(ps[i])
HexBetween(t, n) == /\ Len(t) = n + 3 /\ t[1] = 38 /\ t[2] = 72 /\ t[Len(t)] = 38
                    /\ \A i \in 3..(n + 2) : IsHex(t[i])
OneOf(t, S) == \E x \in S : t = B(x)
DrawCmds == {109, 110, 108, 98, 115, 112, 99}

Kind == [
  b |-> "weight", i |-> "toggle", u |-> "toggle", s |-> "toggle",
  bord |-> "width", shad |-> "width", be |-> "bit",
  a |-> "legacy", an |-> "numpad", q |-> "wrap",
  fade |-> "fade", fad |-> "fad", t |-> "transform", clip |-> "clip",
  fn |-> "name", fs |-> "size", fe |-> "count",
  k |-> "count", kf |-> "count", ko |-> "count", kt |-> "count",
  r |-> "any", org |-> "point", pos |-> "pos", move |-> "move",
  fr |-> "number", frx |-> "number", fry |-> "number", frz |-> "number", fscx |-> "number", fscy |-> "number",
  fax |-> "number", fay |-> "number", fsp |-> "number",
  n |-> "none", N |-> "none", h |-> "none", c |-> "colour", alpha |-> "alpha",
  c1 |-> "colour", c2 |-> "colour", c3 |-> "colour", c4 |-> "colour",
  a1 |-> "alpha", a2 |-> "alpha", a3 |-> "alpha", a4 |-> "alpha" ]
\* names that start with a digit cannot be record fields
Spelling(x) == CASE x = "c1" -> "1c" [] x = "c2" -> "2c" [] x = "c3" -> "3c" [] x = "c4" -> "4c"
                 [] x = "a1" -> "1a" [] x = "a2" -> "2a" [] x = "a3" -> "3a" [] x = "a4" -> "4a" [] OTHER -> x
BuiltIn == {Spelling(x) : x \in DOMAIN Kind}
KeyOf == [n \in BuiltIn |-> CHOOSE x \in DOMAIN Kind : Spelling(x) = n]

\* Whether the built-in tag of this name accepts the arguments raw.
Accepts(name, raw) ==
  LET t == Trim(raw) IN
  CASE Kind[KeyOf[name]] = "weight" -> \/ OneOf(t, {"", "0", "1"})
                                       \/ U32(t) /\ OneOf(U32Val(t), {"100", "200", "300", "400", "500", "600", "700", "800", "900"})
    [] Kind[KeyOf[name]] = "toggle" -> OneOf(t, {"", "0", "1"})
    [] Kind[KeyOf[name]] = "bit" -> OneOf(t, {"0", "1"})
    [] Kind[KeyOf[name]] = "width" -> Float(t) /\ ~Negative(t)
    [] Kind[KeyOf[name]] = "size" -> Float(t) /\ ~IsZero(t) /\ ~Negative(t)
    [] Kind[KeyOf[name]] = "legacy" -> OneOf(t, {"1", "2", "3", "5", "6", "7", "9", "10", "11"})
    [] Kind[KeyOf[name]] = "numpad" -> OneOf(t, {"1", "2", "3", "4", "5", "6", "7", "8", "9"})
    [] Kind[KeyOf[name]] = "wrap" -> OneOf(t, {"0", "1", "2", "3"})
    [] Kind[KeyOf[name]] = "count" -> U32(t)
    [] Kind[KeyOf[name]] = "number" -> Numeric(t)
    [] Kind[KeyOf[name]] = "any" -> TRUE
    [] Kind[KeyOf[name]] = "none" -> t = <<>>
    [] Kind[KeyOf[name]] = "name" -> t # <<>>
    [] Kind[KeyOf[name]] = "colour" -> HexBetween(t, 6)
    [] Kind[KeyOf[name]] = "alpha" -> HexBetween(t, 2)
    [] Kind[KeyOf[name]] = "point" -> InParens(t) /\ Len(Parts(Inner(t))) = 2 /\ AllNumeric(Parts(Inner(t)))
    [] Kind[KeyOf[name]] = "pos" -> Len(Parts(Bare(t))) = 2 /\ AllNumeric(Parts(Bare(t)))
    [] Kind[KeyOf[name]] = "move" -> Len(Parts(Bare(t))) \in {4, 6} /\ AllNumeric(Parts(Bare(t)))
    [] Kind[KeyOf[name]] = "transform" -> InParens(t) /\ ~IsBlank(Inner(t))
    [] Kind[KeyOf[name]] = "fad" -> InParens(t) /\ LET p == Parts(Inner(t)) IN Len(p) = 2 /\ U32(p[1]) /\ U32(p[2])
    [] Kind[KeyOf[name]] = "fade" -> InParens(t) /\ LET p == Parts(Inner(t)) IN
          /\ Len(p) = 7 /\ (\A i \in 1..3 : U32(p[i]) /\ AtMost(NoPlus(p[i]), B("255"))) /\ (\A i \in 4..7 : NatI32(p[i]))
    [] Kind[KeyOf[name]] = "clip" -> InParens(t) /\ LET c == Trim(Inner(t))  p == Parts(c) IN
          /\ c # <<>>
          /\ IF Len(p) = 4 THEN AllNumeric(p) ELSE \E i \in 1..Len(c) : c[i] \in DrawCmds
=============================================================================
