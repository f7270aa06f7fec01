----------------------------- MODULE Plugins_MC -----------------------------
(* Every history of up to MaxLen registry operations over two names: a name   *)
(* never changes hands without being released, and reading a script shows a   *)
(* section only to its owner and never changes what is read.                  *)
EXTENDS Plugins, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES reg, hist, who
vars == <<reg, hist, who>>
NameSet == {B("x"), B("y")}
Doc == B("[x]") \o <<10>> \o B("a") \o <<10, 10>> \o B(" b") \o <<10, 32, 10>> \o B("[Events]") \o <<10>> \o B("Dialogue: 0") \o <<10>> \o B("[ y ]") \o <<10>> \o B("[z]") \o <<10>> \o B("[x]")
Rec(z, o) == /\ reg' = z /\ hist' = Append(hist, o) /\ who' = who + 1
             /\ Printing => PrintT(<<"HIST", ToJson(<<[op |-> "reset"]>> \o hist')>>)
Init == reg = NoReg /\ hist = <<>> /\ who = 1
Next ==
  /\ Len(hist) < MaxLen
  /\ \/ \E n \in NameSet, a \in {"processed", "failed"} :
          \/ Rec([reg EXCEPT !.tags = Claim(@, n, who, a)], [op |-> "tag", name |-> n, who |-> who, answer |-> a])
          \/ Rec([reg EXCEPT !.secs = Claim(@, n, who, a)], [op |-> "section", name |-> n, who |-> who, answer |-> a])
     \/ \E n \in NameSet :
          \/ Rec([reg EXCEPT !.tags = Disown(@, n)], [op |-> "untag", name |-> n])
          \/ Rec([reg EXCEPT !.secs = Disown(@, n)], [op |-> "unsection", name |-> n])
          \/ Rec(reg, [op |-> "run_tag", name |-> n, args |-> B("q")])
          \/ Rec(reg, [op |-> "run_section", name |-> n, header |-> B("h"), lines |-> <<B("l")>>])
     \/ Rec(NoReg, [op |-> "clear"])
     \/ Rec(reg, [op |-> "read", t |-> Doc])
\* names are distinct, owners are real
Inv == /\ Cardinality(Names(reg.tags)) = Len(reg.tags) /\ Cardinality(Names(reg.secs)) = Len(reg.secs)
       /\ \A i \in 1..Len(reg.tags) : reg.tags[i].who < who
       /\ \A x \in 1..Len(ReadWith(reg, Doc)) : Owner(reg.secs, ReadWith(reg, Doc)[x].header).who = ReadWith(reg, Doc)[x].who
\* an owner keeps its name until it is released
Kept == [][\A n \in NameSet : Owned(reg.tags, n) => Owner(reg.tags', n) \in {Owner(reg.tags, n), Nobody}]_vars
=============================================================================
