------------------------------ MODULE Analysis ------------------------------
(* What the analysis of a script says: its resolved styles, the facts about   *)
(* its lines, and the issues its lint rules report.  Everything is defined on *)
(* the document that AssParse reads out of the text.                          *)
EXTENDS AssParse, SequencesExt, FiniteSetsExt
T == INSTANCE TagText
C == INSTANCE Codec

FirstOf(p, k) == SelectSeq(p.secs, LAMBDA s : s.k = k)
ItemsOf(p, k) == LET s == FirstOf(p, k) IN IF s = <<>> THEN <<>> ELSE s[1].items

\* ============================ styles ==========================================
SName == 1  SFont == 2  SSize == 3  SPrim == 4  SSec == 5  SOut == 6  SBack == 7
Flags == <<8, 9, 10, 11>>     \* bold, italic, underline, strikeout
SScaleX == 12  SScaleY == 13  SSpacing == 14  SAngle == 15  SBorder == 16  SOutline == 17  SShadow == 18
SAlign == 19  SML == 20  SMR == 21  SMV == 22  SEnc == 23

\* Numbers with a fraction are counted in 1/4096; only fractions that are whole counts are in the domain.
Unit == 4096
Wrong == -2147483647         \* not a number of that kind
NumBody(t) == IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
Num(t) ==
  LET b == NumBody(t)  dot == Find(b, 46, 1)
      w == IF dot = 0 THEN b ELSE SubSeq(b, 1, dot - 1)
      f == IF dot = 0 THEN <<>> ELSE From(b, dot + 1)
      sign == IF t # <<>> /\ t[1] = 45 THEN -1 ELSE 1
  IN IF (w = <<>> /\ f = <<>>) \/ ~(\A i \in 1..Len(w) : IsDigit(w[i])) \/ ~(\A i \in 1..Len(f) : IsDigit(f[i])) THEN Wrong
     ELSE sign * (Dec(w) * Unit + ((Dec(f) * Unit) \div Pow10(Len(f))))
Whole(t, max) == LET b == IF t # <<>> /\ t[1] = 43 THEN Tail(t) ELSE t
               IN IF ~AllDigits(b) \/ Len(b) > 8 THEN Wrong ELSE IF Dec(b) > max THEN Wrong ELSE Dec(b)
Size(t) == LET v == Num(t) IN IF v = Wrong \/ v <= 0 \/ v > 1000 * Unit THEN Wrong ELSE v
Percent(t) == LET v == Num(t) IN IF v = Wrong \/ v < 0 \/ v > 1000 * Unit THEN Wrong ELSE v
Colour(t) == IF IsBlank(t) THEN <<255, 255, 255, 255>> ELSE C!ParseColour(t)
Flag(t) == IF t = <<48>> THEN 0 ELSE IF t = <<49>> THEN 1 ELSE Wrong

Zero == <<48>>
Hundred == <<49, 48, 48>>
Unresolved == [ok |-> FALSE]
BadStyle(r) == \/ \E v \in {r.size, r.sx, r.sy, r.sp, r.an, r.bs, r.ol, r.sh, r.al, r.ml, r.mr, r.mt, r.mb, r.en} : v = Wrong
               \/ \E v \in {r.c1, r.c2, r.c3, r.c4} : v = C!Bad
               \/ \E i \in 1..4 : r.fl[i] = Wrong
Bothm(s) == s.mt # <<>> /\ s.mb # <<>>
Plain(s) ==
  LET f == s.f
      r == [ok |-> TRUE, name |-> f[SName], font |-> IF f[SFont] = <<>> THEN B("Arial") ELSE f[SFont], size |-> Size(f[SSize]),
            c1 |-> Colour(f[SPrim]), c2 |-> Colour(f[SSec]), c3 |-> Colour(f[SOut]), c4 |-> Colour(f[SBack]),
            fl |-> [i \in 1..4 |-> Flag(f[Flags[i]])], sx |-> Percent(f[SScaleX]), sy |-> Percent(f[SScaleY]),
            sp |-> Num(f[SSpacing]), an |-> Num(f[SAngle]), bs |-> Whole(f[SBorder], 255), ol |-> Num(f[SOutline]), sh |-> Num(f[SShadow]),
            al |-> Whole(f[SAlign], 255), ml |-> Whole(f[SML], 65535), mr |-> Whole(f[SMR], 65535),
            mt |-> IF Bothm(s) THEN Whole(s.mt[1], 65535) ELSE Whole(f[SMV], 65535),
            mb |-> IF Bothm(s) THEN Whole(s.mb[1], 65535) ELSE Whole(f[SMV], 65535), en |-> Whole(f[SEnc], 255)]
  IN IF BadStyle(r) THEN Unresolved ELSE r
\* A value is inherited when the child leaves it out (or, for some fields, writes their neutral value).
Own(t, neutral, v, inherited) == IF t = <<>> \/ t \in neutral THEN inherited ELSE v
Child(s, p) ==
  LET f == s.f
      r == [ok |-> TRUE, name |-> f[SName], font |-> Own(f[SFont], {}, f[SFont], p.font), size |-> Own(f[SSize], {Zero}, Size(f[SSize]), p.size),
            c1 |-> Own(f[SPrim], {}, Colour(f[SPrim]), p.c1), c2 |-> Own(f[SSec], {}, Colour(f[SSec]), p.c2),
            c3 |-> Own(f[SOut], {}, Colour(f[SOut]), p.c3), c4 |-> Own(f[SBack], {}, Colour(f[SBack]), p.c4),
            fl |-> [i \in 1..4 |-> LET v == Flag(f[Flags[i]]) IN IF v = Wrong THEN p.fl[i] ELSE v],
            sx |-> Own(f[SScaleX], {Hundred}, Percent(f[SScaleX]), p.sx), sy |-> Own(f[SScaleY], {Hundred}, Percent(f[SScaleY]), p.sy),
            sp |-> Own(f[SSpacing], {Zero}, Num(f[SSpacing]), p.sp), an |-> Own(f[SAngle], {Zero}, Num(f[SAngle]), p.an),
            bs |-> Own(f[SBorder], {}, Whole(f[SBorder], 255), p.bs), ol |-> Own(f[SOutline], {Zero}, Num(f[SOutline]), p.ol),
            sh |-> Own(f[SShadow], {Zero}, Num(f[SShadow]), p.sh), al |-> Own(f[SAlign], {}, Whole(f[SAlign], 255), p.al),
            ml |-> Own(f[SML], {}, Whole(f[SML], 65535), p.ml), mr |-> Own(f[SMR], {}, Whole(f[SMR], 65535), p.mr),
            mt |-> IF Bothm(s) THEN Own(s.mt[1], {}, Whole(s.mt[1], 65535), p.mt) ELSE Own(f[SMV], {Zero}, Whole(f[SMV], 65535), p.mt),
            mb |-> IF Bothm(s) THEN Own(s.mb[1], {}, Whole(s.mb[1], 65535), p.mb) ELSE Own(f[SMV], {Zero}, Whole(f[SMV], 65535), p.mb),
            en |-> Own(f[SEnc], {}, Whole(f[SEnc], 255), p.en)]
  IN IF BadStyle(r) THEN Unresolved ELSE r

NamesIn(ss) == {ss[i].f[SName] : i \in 1..Len(ss)}
Unique(ss) == Cardinality(NamesIn(ss)) = Len(ss)
LastNamed(ss, n) == CHOOSE i \in 1..Len(ss) : ss[i].f[SName] = n /\ \A j \in 1..Len(ss) : ss[j].f[SName] = n => j <= i
\* The parents a name refers to: every definition of a repeated name counts.
ParentsOf(ss, n) == {ss[i].parent[1] : i \in {j \in 1..Len(ss) : ss[j].f[SName] = n /\ ss[j].parent # <<>>}} \cap NamesIn(ss)
RECURSIVE Ancestors(_, _)
Ancestors(ss, S) == LET n == S \cup UNION {ParentsOf(ss, x) : x \in S} IN IF n = S THEN S ELSE Ancestors(ss, n)
Cyclic(ss) == \E n \in NamesIn(ss) : n \in Ancestors(ss, ParentsOf(ss, n))
RECURSIVE Resolve(_, _)
Resolve(ss, i) ==
  LET s == ss[i]  P == {j \in 1..Len(ss) : s.parent # <<>> /\ ss[j].f[SName] = s.parent[1]} IN
  IF P = {} THEN Plain(s)
  ELSE LET p == Resolve(ss, CHOOSE j \in P : TRUE) IN IF p.ok THEN Child(s, p) ELSE Plain(s)
\* Without a clear inheritance (repeated names, cycles) every style stands for itself; the last good one of a name wins.
Alone(ss) == LET r == TLCEval([i \in 1..Len(ss) |-> Plain(ss[i])])
                 good == {i \in 1..Len(ss) : r[i].ok}
             IN {r[i] : i \in {k \in good : \A j \in good : ss[j].f[SName] = ss[k].f[SName] => j <= k}}
Resolved(ss) == IF ~Unique(ss) \/ Cyclic(ss) THEN Alone(ss)
                ELSE {x \in {Resolve(ss, i) : i \in 1..Len(ss)} : x.ok}

\* Resolutions: the first [Script Info]; scaling as fractions <<num, den>>.
Value(items, key) == LET S == {i \in 1..Len(items) : items[i].key = key} IN IF S = {} THEN <<>> ELSE items[CHOOSE i \in S : \A j \in S : i <= j].val
NoScale == <<>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Frac(n, d) == LET g == Gcd(n, d) IN <<n \div g, d \div g>>
Scaling(p) ==
  LET it == ItemsOf(p, "info")
      v == [k \in {"LayoutResX", "LayoutResY", "PlayResX", "PlayResY"} |-> Whole(Value(it, B(k)), 99999999)]
  IN IF (\E k \in DOMAIN v : v[k] = Wrong) \/ (v["LayoutResX"] = v["PlayResX"] /\ v["LayoutResY"] = v["PlayResY"]) THEN NoScale
     ELSE << Frac(v["PlayResX"], v["LayoutResX"]), Frac(v["PlayResY"], v["LayoutResY"]) >>
Times(v, q) == LET g == Gcd(IF v < 0 THEN -v ELSE v, q[2]) IN ((v \div g) * q[1]) \div (q[2] \div g)
Cut(v, q) == MinOf(65535, Times(v, q))
Average(a, b) == Frac(a[1] * b[2] + b[1] * a[2], 2 * a[2] * b[2])
Scaled(r, sc) == IF sc = NoScale THEN r
  ELSE LET av == Average(sc[1], sc[2]) IN
       [r EXCEPT !.size = Times(@, av), !.sp = Times(@, sc[1]), !.ol = Times(@, av), !.sh = Times(@, av),
                 !.ml = Cut(@, sc[1]), !.mr = Cut(@, sc[1]), !.mt = Cut(@, sc[2]), !.mb = Cut(@, sc[2])]
Weight(r) ==
  (IF r.size > 72 * Unit THEN 20 ELSE IF r.size > 48 * Unit THEN 10 ELSE 0) +
  (IF r.ol > 4 * Unit THEN 15 ELSE IF r.ol > 2 * Unit THEN 8 ELSE 0) +
  (IF r.sh > 3 * Unit THEN 10 ELSE IF r.sh > Unit THEN 5 ELSE 0) +
  (IF r.sx # 100 * Unit \/ r.sy # 100 * Unit THEN 10 ELSE 0) + (IF r.an # 0 THEN 15 ELSE 0) +
  (IF r.fl[1] = 1 THEN 2 ELSE 0) + (IF r.fl[2] = 1 THEN 2 ELSE 0) + (IF r.fl[3] = 1 \/ r.fl[4] = 1 THEN 5 ELSE 0)
Styles(p) == LET sc == Scaling(p) IN TLCEval({Scaled(r, sc) : r \in Resolved(ItemsOf(p, "styles"))})

\* What is wrong between styles: <<kind, names>> of each conflict.
MissingParents(ss) == LET I == {i \in 1..Len(ss) : ss[i].parent # <<>> /\ ss[i].parent[1] \notin NamesIn(ss)}
                      IN [k \in 1..Cardinality(I) |-> LET i == CHOOSE x \in I : Cardinality({y \in I : y < x}) = k - 1
                                                      IN <<"missing", {ss[i].f[SName]}, 1>>]
Count(ss, n) == Cardinality({i \in 1..Len(ss) : ss[i].f[SName] = n})
Conflicts(ss) == MissingParents(ss) \o (IF Cyclic(ss) THEN << <<"circular", NamesIn(ss), Cardinality(NamesIn(ss))>> >> ELSE <<>>)
                 \o SetToSeq({<<"duplicate", {n}, Count(ss, n)>> : n \in {m \in NamesIn(ss) : Count(ss, m) > 1}})
\* Who inherits from whom: the last definition of a name speaks for it.
Inherits(ss) == LET said == {i \in 1..Len(ss) : ss[i].parent = <<>> \/ ss[i].parent[1] \in NamesIn(ss)}
                IN {<<ss[i].f[SName], ss[i].parent>> : i \in {k \in said : \A j \in said : ss[j].f[SName] = ss[k].f[SName] => j <= k}}
StyleIssues(r, strict) == (IF strict /\ r.size > 200 * Unit THEN << <<"font_size", "warning">> >> ELSE <<>>)
                          \o (IF r.size > 50 * Unit THEN << <<"font_size", "info">> >> ELSE <<>>)
                          \o (IF Weight(r) > 70 THEN << <<"complexity", "warning">> >> ELSE <<>>)

\* ============================ lines ===========================================
EStart == 2  EEnd == 3  EStyle == 4  EText == 10
\* A line that can be analysed: readable times, a positive duration, readable text.
Line(e, no) ==
  LET a == C!ParseTime(e.f[EStart])  z == C!ParseTime(e.f[EEnd])  x == T!Analyze(e.f[EText], T!NoHandlers)
  IN [no |-> no, a |-> a, z |-> z, timed |-> a # C!Bad /\ z # C!Bad, text |-> x, chars |-> IF x.ok THEN T!Chars(x.plain) ELSE 0]
AllLines(p) == LET ev == ItemsOf(p, "events") IN TLCEval([i \in 1..Len(ev) |-> Line(ev[i], i)])
Before(a, b) == C!Leq(a, b) /\ a # b
Shown(x) == x.timed /\ Before(x.a, x.z)
Infos(L) == SelectSeq(L, LAMBDA x : Shown(x) /\ x.text.ok)

One == {B("b"), B("i"), B("u"), B("s"), B("c"), B("1c"), B("2c"), B("3c"), B("4c"), B("alpha"), B("1a"), B("2a"), B("3a"), B("4a")}
Three == {B("frx"), B("fry"), B("frz"), B("fscx"), B("fscy"), B("fsp"), B("fad"), B("fade"), B("clip"), B("iclip")}
TagPoints(n) == IF n \in One THEN 1 ELSE IF n \in Three THEN 3 ELSE IF n = B("move") THEN 4
             ELSE IF n \in {B("t"), B("pbo")} THEN 5 ELSE IF n = B("p") THEN 8 ELSE 2
RECURSIVE SumTags(_, _, _)
SumTags(ts, i, acc) == IF i > Len(ts) \/ acc >= 10 THEN MinOf(acc, 10) ELSE SumTags(ts, i + 1, acc + TagPoints(ts[i].name))
Anim(x) == SumTags(x.text.tags, 1, 0)
Step3(v, a, b, c, w) == IF v <= a THEN w[1] ELSE IF v <= b THEN w[2] ELSE IF v <= c THEN w[3] ELSE w[4]
Complexity(x) ==
  LET n == Len(x.text.tags) IN
  MinOf(100, Anim(x) * 5 + (IF x.chars <= 50 THEN 0 ELSE Step3(x.chars, 200, 500, 1000, <<5, 15, 30, 50>>))
             + (IF n = 0 THEN 0 ELSE Step3(n, 5, 15, 30, <<5, 15, 25, 35>>)))
Impact(v) == IF v <= 20 THEN "Minimal" ELSE IF v <= 40 THEN "Low" ELSE IF v <= 60 THEN "Medium" ELSE IF v <= 80 THEN "High" ELSE "Critical"
Duration(x) == C!Minus(x.z, x.a)
Relation(x, y) == IF x.a = y.a /\ x.z = y.z THEN "Identical"
                  ELSE IF C!Leq(x.z, y.a) \/ C!Leq(y.z, x.a) THEN "NoOverlap"
                  ELSE IF (C!Leq(x.a, y.a) /\ C!Leq(y.z, x.z)) \/ (C!Leq(y.a, x.a) /\ C!Leq(x.z, y.z)) THEN "FullOverlap"
                  ELSE "PartialOverlap"
InRange(x, s, e) == ~C!Leq(x.z, s) /\ ~C!Leq(e, x.a)
Earlier(x, y) == Before(x.a, y.a) \/ (x.a = y.a /\ Before(x.z, y.z))
\* Sorted by start, then end, keeping the order of equals.
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ Earlier(x, y) \/ (~Earlier(y, x) /\ x.no < y.no)
                  IN <<m.no>> \o Sorted(S \ {m})
OverlapsIn(L) == {<<i, j>> \in (1..Len(L)) \X (1..Len(L)) : i < j /\ Before(L[i].a, L[j].z) /\ Before(L[j].a, L[i].z)}
RECURSIVE SumDur(_, _, _)
SumDur(L, i, acc) == IF i > Len(L) THEN acc ELSE LET d == Duration(L[i]) IN SumDur(L, i + 1, <<acc[1] + d[1], acc[2] + d[2]>>)
Norm(v) == <<v[1] + (v[2] \div C!HourCs), v[2] % C!HourCs>>
AverageOf(L) == IF L = <<>> THEN <<>>
                ELSE LET s == Norm(SumDur(L, 1, <<0, 0>>))  n == Len(L)
                     IN <<s[1] \div n, ((s[1] % n) * C!HourCs + s[2]) \div n>>
Least(S) == CHOOSE v \in S : \A w \in S : C!Leq(v, w)
Most(S) == CHOOSE v \in S : \A w \in S : C!Leq(w, v)
SpanOf(L) == IF L = <<>> THEN <<>> ELSE C!Minus(Most({L[i].z : i \in 1..Len(L)}), Least({L[i].a : i \in 1..Len(L)}))
Minus0(a, b) == IF a > b THEN a - b ELSE 0
Summary(L, S) ==
  LET n == Len(L)  o == Cardinality(OverlapsIn(L))  a == Cardinality({i \in 1..n : Anim(L[i]) > 3})
      f == Cardinality({r.name : r \in {x \in S : x.size > 72 * Unit}})
      score == 100 - (IF n > 1000 THEN 20 ELSE IF n > 500 THEN 10 ELSE 0) - (IF o > 50 THEN 15 ELSE IF o > 20 THEN 8 ELSE 0)
                   - (IF a > 100 THEN 10 ELSE IF a > 50 THEN 5 ELSE 0) - (IF f > 10 THEN 5 ELSE 0)
  IN [events |-> n, overlaps |-> o, anims |-> a, fonts |-> f, score |-> score, slow |-> score < 80,
      advice |-> IF o > 10 THEN "overlaps" ELSE IF a > 20 THEN "animations" ELSE IF f > 5 THEN "fonts" ELSE IF n > 1000 THEN "size" ELSE "none"]

\* ============================ lint ============================================
Rules == <<"timing-overlap", "negative-duration", "invalid-color", "missing-style", "invalid-tag", "performance", "encoding", "accessibility">>
Category == [x \in {Rules[i] : i \in 1..8} |->
  CASE x \in {"timing-overlap", "negative-duration"} -> "timing" [] x \in {"invalid-color", "missing-style"} -> "styling"
    [] x = "invalid-tag" -> "content" [] OTHER -> x]
Severity == [info |-> 1, hint |-> 2, warning |-> 3, error |-> 4, critical |-> 5]
Iss(r, s, m) == [r |-> r, s |-> s, m |-> m]
RECURSIVE ConcatAll(_, _)
ConcatAll(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o ConcatAll(ss, i + 1)
Each(n, F(_)) == ConcatAll(TLCEval([i \in 1..n |-> F(i)]), 1)
If1(c, x) == IF c THEN <<x>> ELSE <<>>

LintOverlap(ev, L) ==
  IF Len(ev) = 0 THEN <<>>
  ELSE IF Len(ev) > 1 /\ \E i \in 1..Len(L) : ~L[i].timed THEN <<Iss("timing-overlap", "warning", B("Could not analyze event overlaps due to timing parse errors"))>>
  ELSE LET O == {q \in OverlapsIn(L) : Shown(L[q[1]]) /\ Shown(L[q[2]])}
           Msg(i, j) == B("Event overlaps: ") \o ev[i].f[EStart] \o B(" to ") \o ev[i].f[EEnd] \o B(" overlaps with ")
                        \o ev[j].f[EStart] \o B(" to ") \o ev[j].f[EEnd]
           Q == SetToSeq(O)
       IN [k \in 1..Len(Q) |-> Iss("timing-overlap", "warning", Msg(Q[k][1], Q[k][2]))]
LintNegative(ev, L) == Each(Len(ev), LAMBDA i :
  If1(L[i].timed /\ ~Before(L[i].a, L[i].z),
      Iss("negative-duration", "error", B("Invalid duration: start ") \o ev[i].f[EStart] \o B(" >= end ") \o ev[i].f[EEnd])))
\* Colour tags inside a tag and its arguments: after each backslash, [1-4]c&H...&.
ColourTag(part) ==
  LET n == IF part # <<>> /\ part[1] \in 49..52 THEN <<part[1]>> ELSE <<>>
      q == Drop(part, Len(n))  e == Find(q, 38, 4)
  IN IF Len(q) < 3 \/ q[1] # 99 \/ q[2] # 38 \/ q[3] \notin {72, 104} \/ e = 0 THEN <<>>
     ELSE <<[name |-> n \o <<99>>, val |-> SubSeq(q, 4, e - 1)]>>
LintTagColour(part) ==
  LET c == ColourTag(part) IN
  If1(c # <<>> /\ C!ParseColour(<<38, 72>> \o c[1].val \o <<38>>) = C!Bad,
      Iss("invalid-color", "error", B("Invalid color override tag: ") \o <<92>> \o c[1].name \o <<38, 72>> \o c[1].val \o <<38>>))
LintTag(g) == LET ps == Split(g.name \o g.args, 92) IN Each(Len(ps), LAMBDA i : LintTagColour(ps[i]))
Fields4 == << <<"primary", SPrim>>, <<"secondary", SSec>>, <<"outline", SOut>>, <<"back", SBack>> >>
LintColour(ss, L) ==
  Each(Len(ss), LAMBDA i : Each(4, LAMBDA k :
    If1(C!ParseColour(ss[i].f[Fields4[k][2]]) = C!Bad,
        Iss("invalid-color", "error", B("Invalid ") \o B(Fields4[k][1]) \o B(" color: ") \o ss[i].f[Fields4[k][2]]))))
  \o Each(Len(L), LAMBDA i : IF ~L[i].text.ok THEN <<>> ELSE Each(Len(L[i].text.tags), LAMBDA k : LintTag(L[i].text.tags[k])))
LintStyle(ev, S) == LET N == {r.name : r \in S} IN Each(Len(ev), LAMBDA i :
  If1(ev[i].f[EStyle] \notin N, Iss("missing-style", "error", B("Event references undefined style: ") \o ev[i].f[EStyle])))
LintTags(L) == Each(Len(L), LAMBDA i : IF ~L[i].text.ok THEN <<>> ELSE
  [k \in 1..Len(L[i].text.diag) |-> Iss("invalid-tag", "warning",
     IF L[i].text.diag[k].kind = "EmptyOverride" THEN B("Empty override tag found") ELSE B("Malformed override tag syntax"))])
LintPerf(D) ==
  If1(Len(D) > 1000, Iss("performance", "hint", B("Script has ") \o Digits(Len(D)) \o B(" events, consider optimization")))
  \o Each(Len(D), LAMBDA i :
      If1(D[i].chars > 500, Iss("performance", "hint", B("Event has very long text (") \o Digits(D[i].chars) \o B(" characters)")))
      \o If1(Len(D[i].text.tags) > 20, Iss("performance", "hint", B("Event has many override tags (") \o Digits(Len(D[i].text.tags)) \o B(" blocks)"))))
Control(v) == v < 32 \/ (v >= 127 /\ v <= 159)
LintEnc(ev, info) ==
  Each(Len(ev), LAMBDA i :
    LET t == ev[i].f[EText]  P == T!Points(t, 1, {})  n == T!Chars(t) IN
    If1(\E v \in P \ {9, 10, 13} : Control(v), Iss("encoding", "warning", B("Event contains non-printable control characters")))
    \o If1(65533 \in P, Iss("encoding", "warning", B("Event contains Unicode replacement character (") \o <<239, 191, 189>> \o B(")")))
    \o If1(Len(t) > n * 3, Iss("encoding", "hint", B("Event contains many multi-byte characters"))))
  \o Each(Len(info), LAMBDA i :
    If1(\E v \in T!Points(info[i].val, 1, {}) \ {10, 13} : Control(v),
        Iss("encoding", "warning", B("Script info field '") \o info[i].key \o B("' contains control characters"))))
LintAccess(L) == Each(Len(L), LAMBDA i :
  LET x == L[i]  ok == x.timed /\ C!Leq(x.a, x.z)  d == Duration(x)  n == MinOf(x.chars, 10000) IN
  If1(ok /\ d[1] = 0 /\ d[2] < 50, Iss("accessibility", "hint", B("Very short event duration: ") \o Digits(d[2] * 10) \o B("ms")))
  \o If1(ok /\ n > 0 /\ d # <<0, 0>> /\ Before(d, <<0, n * 5>>), Iss("accessibility", "hint", B("Fast reading speed")))
  \o If1(x.chars > 200, Iss("accessibility", "hint", B("Very long text: ") \o Digits(x.chars) \o B(" characters"))))
Lint(p) == LET ev == ItemsOf(p, "events")  L == AllLines(p) IN
  << LintOverlap(ev, L), LintNegative(ev, L), LintColour(ItemsOf(p, "styles"), L), LintStyle(ev, Styles(p)), LintTags(L), LintPerf(Infos(L)),
     LintEnc(ev, ItemsOf(p, "info")), LintAccess(L) >>

\* Which issues a configuration reports.
Wanted(x, cfg) == /\ ~(\E i \in 1..Len(cfg.dis) : cfg.dis[i] = x.r)
                  /\ (cfg.en = <<>> \/ \E i \in 1..Len(cfg.en) : cfg.en[i] = x.r)
                  /\ Severity[x.s] >= Severity[cfg.min]
Reported(all, cfg) == LET w == SelectSeq(all, LAMBDA x : Wanted(x, cfg))
                      IN IF cfg.max = 0 \/ Len(w) <= cfg.max THEN w ELSE SubSeq(w, 1, cfg.max)
=============================================================================
