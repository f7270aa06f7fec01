---------------------------- MODULE Analysis_TV ----------------------------
(* Validates recorded analyses of scripts against Analysis.                   *)
EXTENDS Analysis, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
Bag(s) == LET R == {s[i] : i \in 1..Len(s)} IN [x \in R |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
SetOf(s) == {s[i] : i \in 1..Len(s)}

\* --- styles ------------------------------------------------------------------
Shape(r) == <<r.name, r.font, r.size, r.c1, r.c2, r.c3, r.fl, r.sp, r.an, r.ol, r.sh, r.ml, r.mr, r.mt, r.mb, Weight(r)>>
CheckStyles(r) ==
  LET p == Parse(r.t)  ss == ItemsOf(p, "styles")  S == Styles(p)
      cf == Conflicts(ss)
      nvi(strict) == Bag(ConcatAll([i \in 1..Cardinality(S) |-> StyleIssues(SetToSeq(S)[i], strict)], 1))
  IN <<FirstDiff(<< <<"styles", {Shape(x) : x \in S}, SetOf(r.styles)>>, <<"one per name", Cardinality(S), Len(r.styles)>>,
                    <<"in script analysis", {Shape(x) : x \in S}, SetOf(r.again)>>,
                    <<"conflicts", Bag(cf), Bag([i \in 1..Len(r.conf) |-> <<r.conf[i][1], SetOf(r.conf[i][2]), Len(r.conf[i][2])>>])>>,
                    <<"inheritance", Inherits(ss), SetOf(r.inh)>>,
                    <<"issues", nvi(FALSE), Bag(r.iss)>>, <<"strict issues", nvi(TRUE), Bag(r.strict)>> >>),
       IF ~Unique(ss) THEN "styles repeated" ELSE IF Cyclic(ss) THEN "styles cyclic"
       ELSE IF \E i \in 1..Len(ss) : ss[i].parent # <<>> /\ ss[i].parent[1] \in NamesIn(ss)
            THEN (IF Scaling(p) # NoScale THEN "styles inherited and scaled" ELSE "styles inherited")
       ELSE IF S = {} THEN "styles none" ELSE IF Scaling(p) # NoScale THEN "styles scaled" ELSE "styles plain">>

\* --- lines -------------------------------------------------------------------
Facts(x) == <<x.no, x.a, x.z, Duration(x), Anim(x), Complexity(x), Impact(Complexity(x)), x.chars, Len(x.text.tags)>>
CheckLines(r) ==
  LET p == Parse(r.t)  L == Infos(AllLines(p))  S == Styles(p) IN
  <<FirstDiff(<< <<"facts", [i \in 1..Len(L) |-> Facts(L[i])], r.infos>>,
                 <<"relations", {<<i, j, Relation(L[i], L[j])>> : <<i, j>> \in (1..MinOf(5, Len(L))) \X (1..MinOf(5, Len(L)))}, SetOf(r.rel)>>,
                 <<"overlaps", OverlapsIn(L), SetOf(r.over)>>,
                 <<"sorted", Sorted(SetOf(L)), r.sorted>>,
                 <<"in range", [q \in 1..Len(r.qs) |-> SelectSeq([i \in 1..Len(L) |-> i], LAMBDA i : InRange(L[i], r.qs[q][1], r.qs[q][2]))], r.found>>,
                 <<"span", SpanOf(L), r.span>>, <<"average", AverageOf(L), r.avg>>,
                 <<"summary", Summary(L, S), r.sum>> >>),
    IF L = <<>> THEN "lines none" ELSE IF OverlapsIn(L) # {} THEN "lines overlapping" ELSE "lines apart">>

\* --- lint --------------------------------------------------------------------
CheckLint(r) ==
  LET p == Parse(r.t)  E == TLCEval(Lint(p))
      obs(q) == TLCEval([i \in 1..Len(q) |-> [r |-> q[i][1], s |-> q[i][2], m |-> q[i][3]]])
      all == obs(r.all)
      Of(name) == SelectSeq(all, LAMBDA x : x.r = name)
      \* an overlap names its two events in either order
      Pair(m) == LET at == FindSub(m, B(" overlaps with "), 1) IN
                 IF at = 0 THEN {m} ELSE {SubSeq(m, 1, at - 1), B("Event overlaps: ") \o Drop(m, at + 14)}
      Pairs1(q) == [i \in 1..Len(q) |-> <<q[i].s, Pair(q[i].m)>>]
      order == [i \in 1..Len(all) |-> CHOOSE k \in 1..8 : Rules[k] = all[i].r]
      hit == {Rules[k] : k \in {j \in 1..8 : E[j] # <<>>}}
  IN <<FirstDiff([k \in 1..8 |-> <<Rules[k], IF k = 1 THEN Bag(Pairs1(E[1])) ELSE E[k], IF k = 1 THEN Bag(Pairs1(Of(Rules[1]))) ELSE Of(Rules[k])>>] \o
       << <<"rule order", TRUE, \A i \in 1..Len(order) - 1 : order[i] <= order[i + 1]>>,
          <<"script analysis", all, obs(r.again)>>,
          <<"critical", FALSE, r.crit>>,
          <<"categories", [i \in 1..Len(all) |-> Category[all[i].r]], r.cats>>,
          <<"configured", [q \in 1..Len(r.cfgs) |-> Reported(all, r.cfgs[q])], [q \in 1..Len(r.cfgs) |-> obs(r.res[q])]>>,
          <<"by category", [q \in 1..Len(r.bycat) |-> SelectSeq(all, LAMBDA x : Category[x.r] = r.bycat[q][1])],
                           [q \in 1..Len(r.bycat) |-> obs(r.bycat[q][2])]>>,
          <<"by id", [q \in 1..8 |-> Of(Rules[q])], [q \in 1..8 |-> obs(r.byid[q])]>> >>),
       IF r.focus \notin hit THEN "lint clean" ELSE "lint " \o r.focus >>

Check(r) == CASE r.k = "styles" -> CheckStyles(r) [] r.k = "lines" -> CheckLines(r) [] r.k = "lint" -> CheckLint(r)
Reset(r) == LET c == Check(r) IN [st |-> [ok |-> TRUE], err |-> c[1], tag |-> c[2]]
Step(s, r) == Reset(r)
INSTANCE TraceRun
=============================================================================
