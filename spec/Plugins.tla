------------------------------ MODULE Plugins ------------------------------
(* The extension registry.  tags and secs map a name to the handler that owns *)
(* it (its identity and its answer); a name has one owner at a time.  Reading *)
(* a script with a registry reads the same script; every section the reader   *)
(* does not know is shown, by exact name, to the processor that owns it.      *)
EXTENDS AssParse, FiniteSets

Nobody == [who |-> 0, answer |-> "none"]
NoReg == [tags |-> <<>>, secs |-> <<>>]
\* a registry table is a sequence of [name, who, answer], names distinct
Owner(tab, name) == LET S == {i \in 1..Len(tab) : tab[i].name = name} IN IF S = {} THEN Nobody ELSE tab[CHOOSE i \in S : TRUE]
Owned(tab, name) == \E i \in 1..Len(tab) : tab[i].name = name
Claim(tab, name, who, answer) == IF Owned(tab, name) THEN tab ELSE Append(tab, [name |-> name, who |-> who, answer |-> answer])
Disown(tab, name) == LET Other(x) == x.name # name IN SelectSeq(tab, Other)
Names(tab) == {tab[i].name : i \in 1..Len(tab)}

Answer(h) == CASE h.answer = "failed" -> "failed " \o ToString(h.who) [] OTHER -> h.answer

\* The lines of the unknown section whose header is line i: up to the next header, blank lines before
\* that header and empty lines anywhere left out.
RECURSIVE NextFull(_, _)
NextFull(ls, i) == IF i > Len(ls) THEN i ELSE LET tr == Trim(ls[i].b) IN
                   IF IsHeaderish(tr) /\ Has(tr, CB) THEN i ELSE NextFull(ls, i + 1)
RECURSIVE BackBlank(_, _, _)
BackBlank(ls, i, low) == IF i <= low \/ ~IsBlank(ls[i].b) THEN i ELSE BackBlank(ls, i - 1, low)
SectionLines(ls, i) ==
  LET nx == NextFull(ls, i + 1)
      last == IF nx > Len(ls) THEN Len(ls) ELSE BackBlank(ls, nx - 1, i)
      body == [j \in 1..(last - i) |-> ls[i + j].b]
      Full(x) == x # <<>> IN
  SelectSeq(body, Full)

\* Unknown sections of a document, in order: [name, no (line of the header)].
UnknownAt(p0, p, ln, no) ==
  LET tr == Trim(ln.b) IN
  IF p.mode = "skip" /\ Len(p.iss) > Len(p0.iss) /\ p.iss[Len(p.iss)].sev = "Warning" /\ p.iss[Len(p.iss)].line = no
     /\ IsHeaderish(tr) /\ Has(tr, CB) /\ SectionKind(HeaderName(tr)) = "unknown"
  THEN << [name |-> HeaderName(tr), no |-> no] >> ELSE <<>>
RECURSIVE UnknownFrom(_, _, _, _)
UnknownFrom(p, ls, i, acc) ==
  IF i > Len(ls) THEN acc
  ELSE LET q == StepLine(p, ls[i], i) IN UnknownFrom(q, ls, i + 1, acc \o UnknownAt(p, q, ls[i], i))
Unknown(t) == UnknownFrom(Start, ParseLines(t), 1, <<>>)

\* What the owners are shown while t is read, and the issues they cause.
RECURSIVE Shown(_, _, _, _)
Shown(reg, ls, us, i) ==
  IF i > Len(us) THEN <<>>
  ELSE LET h == Owner(reg.secs, us[i].name)  rest == Shown(reg, ls, us, i + 1) IN
       IF h.who = 0 THEN rest
       ELSE << [who |-> h.who, answer |-> h.answer, header |-> us[i].name, no |-> us[i].no, lines |-> SectionLines(ls, us[i].no)] >> \o rest
ReadWith(reg, t) == Shown(reg, ParseLines(t), Unknown(t), 1)
\* an answer is reported at the line after the header (the header's own if nothing follows it)
IssueOf(x, ls, t) == [sev |-> IF x.answer = "processed" THEN "Info" ELSE "Warning",
                      line |-> IF x.no = Len(ls) /\ t[Len(t)] # NL THEN x.no ELSE x.no + 1]
Spoke(x) == x.answer \in {"processed", "failed"}

\* --- the Aegisub sections ---------------------------------------------------
NProject == B("Aegisub Project")
NExtradata == B("Aegisub Extradata")
ProjectLine(x) == LET t == Trim(x) IN t = <<>> \/ t[1] = 33 \/ Has(t, 61) \/ Has(t, 58)
ExtradataLine(x) == Len(Trim(x)) <= 10000
Aegisub(name, header, ls) ==
  IF ~SameNoCase(header, name) THEN "ignored"
  ELSE IF \A i \in 1..Len(ls) : (IF name = NProject THEN ProjectLine(ls[i]) ELSE ExtradataLine(ls[i])) THEN "processed" ELSE "failed"
=============================================================================
