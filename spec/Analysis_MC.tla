---------------------------- MODULE Analysis_MC ----------------------------
(* Style resolution as a worklist: any style whose parent is settled may be   *)
(* settled next.  Whatever the order, the outcome is the one Analysis defines,*)
(* it does not depend on how the section is ordered, and it stops short only  *)
(* at cycles.                                                                 *)
EXTENDS Analysis, IOUtils
Full == IOEnv.FULL = "yes"
VARIABLES ss, done
vars == <<ss, done>>
Names3 == <<B("A"), B("B"), B("C")>>
Sty(n, par, size, bold) ==
  [f |-> [i \in 1..23 |-> IF i = SName THEN n ELSE IF i = SSize THEN size ELSE IF i = 8 THEN bold ELSE IF i \in {12, 13} THEN Hundred
                          ELSE IF i \in {SFont, SPrim, SSec, SOut, SBack} THEN <<>> ELSE Zero],
   parent |-> par, mt |-> <<>>, mb |-> <<>>, rt |-> <<>>]
Parents == {<<>>} \cup {<<Names3[i]>> : i \in 1..3} \cup {<<B("X")>>}
Sizes == IF Full THEN {<<>>, B("20"), B("x")} ELSE {<<>>, B("x")}
Bolds == {<<>>, Zero, B("1")}
Perms == IF ~Full THEN {<<2, 3, 1>>} ELSE {q \in [1..3 -> 1..3] : \A i, j \in 1..3 : i # j => q[i] # q[j]}
Init == /\ \E q \in Perms, P \in [1..3 -> Parents], S \in [1..3 -> Sizes], b \in Bolds :
             ss = [i \in 1..3 |-> Sty(Names3[q[i]], P[q[i]], S[q[i]], IF q[i] = 1 THEN B("1") ELSE b)]
        /\ done = {}
Parent(i) == {j \in 1..3 : ss[i].parent # <<>> /\ ss[j].f[SName] = ss[i].parent[1]}
Settled(i) == \E d \in done : d[1] = i
Of(i) == (CHOOSE d \in done : d[1] = i)[2]
Next == \E i \in 1..3 : /\ ~Settled(i)
                        /\ \A j \in Parent(i) : Settled(j)
                        /\ done' = done \cup {<<i, IF Parent(i) = {} THEN Plain(ss[i])
                                                   ELSE LET p == Of(CHOOSE j \in Parent(i) : TRUE) IN IF p.ok THEN Child(ss[i], p) ELSE Plain(ss[i])>>}
                        /\ UNCHANGED ss
InvOutcome == Cardinality(done) = 3 => {d[2] : d \in done} \ {Unresolved} = Resolved(ss)
InvStuck == (~ENABLED Next /\ Cardinality(done) < 3) => Cyclic(ss)
InvCycle == Cyclic(ss) => Cardinality(done) < 3
InvOrder == Cardinality(done) = 0 => Resolved(ss) = Resolved(<<ss[3], ss[1], ss[2]>>)
InvNamed == \A r \in Resolved(ss) : r.name \in NamesIn(ss)
\* A style that leaves everything out is its parent under another name.
InvSame == \A i \in 1..3 : LET s == ss[i] IN
  ~Cyclic(ss) /\ Parent(i) # {} /\ s.f[SSize] = <<>> /\ s.f[8] = <<>> =>
    LET p == Resolve(ss, CHOOSE j \in Parent(i) : TRUE) IN p.ok => Resolve(ss, i) = [p EXCEPT !.name = s.f[SName]]
=============================================================================
