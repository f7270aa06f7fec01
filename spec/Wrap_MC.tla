------------------------------ MODULE Wrap_MC -------------------------------
(* Packing words of any widths: what it promises, against all other ways to   *)
(* break the same words.                                                      *)
EXTENDS Wrap, Json, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Printing == IOEnv.PRINTHIST = "yes"
VARIABLES ws, limit
W == 1..3
Init == ws = <<>> /\ limit \in 1..7
Y == [name |-> "Default", fname |-> "DejaVu Sans", fs |-> 20000, fscx |-> 100000, fscy |-> 100000, fsp |-> 0, fr |-> 0,
      bs |-> 1, bord |-> 0, shad |-> 0, b |-> 0, i |-> 0, u |-> 0, s |-> 0, num |-> 5, mg |-> <<10, 10, 10>>,
      col |-> <<<<255, 255, 255>>, <<255, 0, 0>>, <<10, 20, 30>>, <<0, 0, 0>>>>, al |-> <<0, 0, 0, 0>>]
Long(w) == [k \in 1..(2 * w) - 1 |-> 72]
RECURSIVE Text(_)
Text(v) == IF Len(v) = 1 THEN Long(v[1]) ELSE Long(v[1]) \o <<32>> \o Text(Tail(v))
Q(v, n, ws0) == [op |-> "wrap", w |-> 640, hh |-> 360, px |-> 320, py |-> 180, sbs |-> "yes", styles |-> <<Y>>, st |-> "Default", from |-> 100, to |-> 200, t |-> 130,
              emg |-> <<310 - (20 * n), 10, 0>>, pad |-> 4, ws |-> ws0, lines |-> <<[k \in 1..Len(v) |-> Long(v[k])]>>, text |-> <<[p |-> "text", x |-> Text(v), ts |-> <<>>]>>]
Next == /\ Len(ws) < MaxLen /\ \E w \in W : ws' = Append(ws, w)
        /\ UNCHANGED limit
        /\ Printing => PrintT(<<"HIST", ToJson(<<[op |-> "reset"]>> \o [k \in 1..4 |-> Q(ws', limit, k - 1)])>>)
G(v) == [i \in 1..Len(v) |-> [k \in 1..Len(v) - i + 1 |-> Sum(SubSeq(v, i, i + k - 1)) + k - 1]]
Ways(m) == {s \in SUBSET (1..m) : m \in s}
RECURSIVE Sorted(_)
Sorted(s) == IF s = {} THEN <<>> ELSE <<Min(s)>> \o Sorted(s \ {Min(s)})
Inv == ws # <<>> =>
  LET m == Len(ws)  g == TLCEval(G(ws))  p == Pack(g, m, limit)  ways == {Sorted(s) : s \in Ways(m)}
      ok(e) == \A k \in 1..Len(e) : Starts(e)[k] = e[k] \/ Span(g, Starts(e)[k], e[k]) <= limit
      n == Len(p)  best == Least(g, m, n) IN
  /\ Reaches(m, p) /\ Filled(g, m, p, limit, 0)
  \* nothing that fits takes fewer lines
  /\ \A e \in ways : ok(e) => Len(e) >= n
  \* it is the only way that fills its lines
  /\ \A e \in ways : Filled(g, m, e, limit, 0) => e = p
  \* the least limit for so many lines is the least width so many lines can have, and that is reached by filling them
  /\ \A e \in ways : Len(e) <= n => Widest(g, e) >= best
  /\ Widest(g, Pack(g, m, best)) <= best
  /\ (\A i \in 1..m : Span(g, i, i) <= limit) => best <= limit
=============================================================================
