------------------------------- MODULE BytesEq -------------------------------
(* Evaluates every accelerated operator of Bytes on a set of small inputs and *)
(* writes the results; run with and without the accelerators, the files must  *)
(* be identical.                                                              *)
EXTENDS Bytes, Json, IOUtils, SequencesExt
VARIABLE x
Chars == {10, 13, 32, 44, 65, 97, 57, 128, 133, 154, 159, 160, 194, 225, 226, 227}
Strs == SetToSeq(UNION {[1..n -> Chars] : n \in 0..3} \cup {<<227, 128, 128, c>> : c \in Chars} \cup {<<c, 226, 128, 168>> : c \in Chars}
                 \cup {<<226, 129, 159, c, 32>> : c \in Chars} \cup {<<44, 44, 97, 44, c, 10, 65, 10>> : c \in Chars})
Pats == {<<>>, <<44>>, <<97, 44>>, <<10, 65, 10>>}
Res(t) == << t, [p \in 1..4 |-> LET q == SetToSeq(Pats)[p] IN <<StartsWith(t, q), EndsWith(t, q), FindSub(t, q, 1), FindSub(t, q, 2)>>],
            Has(t, 44), Find(t, 44, 1), Find(t, 44, 2), FindLast(t, 44, Len(t)), SkipWs(t, 1), BackWs(t, Len(t)), TrimStart(t),
            TrimEnd(t), Trim(t), IsBlank(t), Split(t, 44), SplitN(t, 44, 2), SplitN(t, 44, 1), Join(Split(t, 44), <<65, 66>>), Lower(t),
            SameNoCase(t, Lower(t)), SameNoCase(t, <<97>>), AllDigits(t), Lines(t) >>
Init == x = 0
Next == x = 0 /\ x' = 1 /\ ndJsonSerialize(IOEnv.OUT, [i \in 1..Len(Strs) |-> Res(Strs[i])])
=============================================================================
