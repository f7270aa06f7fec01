----------------------------- MODULE Search_MC ------------------------------
(* Every text of up to MaxLen pieces: matches are exactly the places that     *)
(* spell the pattern, as far as they do not overlap one further left.         *)
EXTENDS Search, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES s, n
Parts == << B("a"), B("A"), B("ab"), B(" "), <<10>>, B("[x]"), <<195, 137>>, <<195, 169>>, <<196, 176>>, <<105, 204, 135>>, B("_"), <<10>> \o B("[Y]") \o <<10>> >>
Patterns == << B("a"), B("Ab"), B("aa"), <<195, 169>>, <<105>>, <<196, 176>>, <<98, 10, 97>>, B("a ") >>
Sc(k, a, b, names) == [kind |-> k, a |-> a, b |-> b, names |-> names]
Scopes == << Sc("all", 0, 0, <<>>), Sc("range", 1, 3, <<>>), Sc("range", 0, 99, <<>>), Sc("lines", 1, 1, <<>>), Sc("lines", 0, 1, <<>>), Sc("lines", 2, 1, <<>>), Sc("sections", 0, 0, <<B("x")>>), Sc("sections", 0, 0, <<B("x"), B("Y")>>) >>
Opts == {[exact |-> e, whole |-> w, max |-> m, scope |-> Scopes[i]] : e \in BOOLEAN, w \in BOOLEAN, m \in {0, 1}, i \in 1..Len(Scopes)}
OpOf(name, p, e, w, m, i, re, new) == [op |-> name, pat |-> p, exact |-> e, whole |-> w, max |-> m, scope |-> Scopes[i].kind, a |-> Scopes[i].a, b |-> Scopes[i].b, names |-> Scopes[i].names, regex |-> re, new |-> new]
Engines == <<"made", "fst", "linear", "index">>
RECURSIVE Searches(_)
Searches(k) == IF k > 2 * Len(Scopes) THEN <<>>
               ELSE <<OpOf("search", Patterns[1 + ((k * 3 + Len(s')) % Len(Patterns))], k % 2 = 0, (k \div 2) % 3 = 0, IF k % 5 = 0 THEN 1 ELSE 0, 1 + (k % Len(Scopes)), "no", <<>>)>> \o Searches(k + 1)
Run == Searches(1) \o << OpOf("replace", B("a"), FALSE, FALSE, 0, 1, "no", B("xyz")), [op |-> "update"], OpOf("search", B("xyz"), FALSE, FALSE, 0, 1, "no", <<>>),
                         OpOf("replace", B("xyz"), TRUE, FALSE, 0, 1, "no", <<>>), OpOf("search", B("x"), TRUE, TRUE, 0, 1, "no", <<>>), [op |-> "build"], OpOf("search", B("b"), TRUE, FALSE, 0, 1, "no", <<>>) >>
Init == s = <<>> /\ n = 0
Next == /\ n < MaxLen /\ \E i \in 1..Len(Parts) : s' = s \o Parts[i]
        /\ n' = n + 1
        /\ Printing => PrintT(<<"HIST", ToJson(<<[op |-> "reset", t |-> s', engine |-> Engines[1 + (Len(s') % 4)]]>> \o <<[op |-> "build"]>> \o Run)>>)
Cs == Chars(s)
Bounds == {Cs[k].at : k \in 1..Len(Cs)} \cup {Len(s)}
FoldText(t) == FoldAll(Chars(t))
Sub(i, j) == SubSeq(s, i + 1, j)
Is(p, o, i, j) == i < j /\ (IF o.exact THEN Sub(i, j) = p ELSE FoldText(Sub(i, j)) = FoldText(p))
WordBefore(i) == \E k \in 1..Len(Cs) : Cs[k].at + Len(Cs[k].b) = i /\ IsWordChar(Cs[k].b)
WordAfter(j) == \E k \in 1..Len(Cs) : Cs[k].at = j /\ IsWordChar(Cs[k].b)
In(o, i, j) == \E k \in 1..Len(Regions(s, o.scope)) : Regions(s, o.scope)[k][1] <= i /\ j <= Regions(s, o.scope)[k][2]
\* all places that could be matches
Spots(p, o) == {q \in {<<i, j>> : i \in Bounds, j \in Bounds} : Is(p, o, q[1], q[2]) /\ In(o, q[1], q[2]) /\ (~o.whole \/ (~WordBefore(q[1]) /\ ~WordAfter(q[2])))}
InvExact == \A k \in 1..Len(Patterns) : \A o \in {x \in Opts : x.max = 0} :
  LET ms == Matches(s, Patterns[k], o)  at == {ms[i] : i \in 1..Len(ms)}  ps == Spots(Patterns[k], o) IN
  /\ at \subseteq ps
  /\ \A i \in 1..(Len(ms) - 1) : ms[i][2] <= ms[i + 1][1]
  /\ \A q \in ps : q \in at \/ \E m \in at : m[1] < q[1] /\ m[2] > q[1]
InvMax == \A k \in 1..Len(Patterns) : \A o \in {x \in Opts : x.max = 1} :
  LET ms == Matches(s, Patterns[k], o)  all == Matches(s, Patterns[k], [o EXCEPT !.max = 0]) IN ms = SubSeq(all, 1, MinOf(1, Len(all)))
InvSame == \A k \in 1..Len(Patterns) : Replaced(s, Patterns[k], Patterns[k], [exact |-> TRUE, whole |-> FALSE, max |-> 0, scope |-> Scopes[1]]) = s
InvGone == \A k \in 1..Len(Patterns) : LET o == [exact |-> FALSE, whole |-> FALSE, max |-> 0, scope |-> Scopes[1]] IN Matches(Replaced(s, Patterns[k], B("|"), o), Patterns[k], o) = <<>>
InvTold == \A o \in {x \in Opts : x.max = 0 /\ x.scope.kind = "all"} : LET ms == Matches(s, B("a"), o) IN
  \A i \in 1..Len(ms) : LET d == Told(s, ms[i]) IN StartsWith(Drop(d.ctx, d.col), d.text) /\ d.line < Len(LinesOf(s))
=============================================================================
