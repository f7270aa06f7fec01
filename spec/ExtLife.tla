------------------------------ MODULE ExtLife ------------------------------
(* The editor's extension manager: loading, initialising, running and         *)
(* unloading extensions, their commands, configuration and data.              *)
(* Every extension, when called, notes the configuration "k" and its own data *)
(* "d" and then sets both.  An extension is called with no lock of the        *)
(* manager held, so it may do so.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Holders == {"a", "b", "c", "caller"}
NoExts == [es |-> <<>>, cmds |-> <<>>, who |-> 0, k |-> "", q |-> "", data |-> [h \in Holders |-> ""]]
Names(m) == {m.es[i].name : i \in 1..Len(m.es)}
At(m, n) == CHOOSE i \in 1..Len(m.es) : m.es[i].name = n
SetOf(x) == {x[i] : i \in 1..Len(x)}
Ans(m, res, val, log) == [m |-> m, res |-> res, val |-> val, log |-> log]
Refused(m) == Ans(m, "CommandFailed", <<>>, <<>>)

Load(m, o) ==
  LET d == [m EXCEPT !.who = @ + 1]
      e == [name |-> o.name, who |-> d.who, cmds |-> o.cmds, init |-> o.init, down |-> o.down, state |-> "Uninitialized"] IN
  IF ~(SetOf(o.deps) \subseteq Names(m)) \/ o.name \in Names(m) THEN Refused(d)
  ELSE Ans([d EXCEPT !.es = Append(@, e)], "", <<>>, <<>>)

\* what a call of extension e with a context for holder h sees and leaves behind
Seen(m, e, what) == << <<e.who, what, m.k, m.data[e.name], "t">> >>
Visit(m, e, h, what) == LET t == what \o ToString(e.who) IN [m EXCEPT !.k = t, !.data[h] = t]
SetState(m, n, s) == [m EXCEPT !.es[At(m, n)].state = s]

\* commands: a sequence of <<command, extension>>; the last to register a command runs it
Unlisted(cs, c) == SelectSeq(cs, LAMBDA x : x[1] # c)
RECURSIVE List(_, _, _)
List(cs, n, new) == IF new = <<>> THEN cs ELSE List(Append(Unlisted(cs, new[1]), <<new[1], n>>), n, Tail(new))
Initialize(m, n) ==
  IF n \notin Names(m) THEN Refused(m)
  ELSE LET e == m.es[At(m, n)]  v == Visit(m, e, n, "init") IN
       IF ~e.init THEN Ans(SetState(v, n, "Error"), "CommandFailed", <<>>, Seen(m, e, "init"))
       ELSE Ans([SetState(v, n, "Active") EXCEPT !.cmds = List(@, n, e.cmds)], "", <<>>, Seen(m, e, "init"))
Forget(m, n) == [m EXCEPT !.es = SelectSeq(@, LAMBDA e : e.name # n), !.cmds = SelectSeq(@, LAMBDA c : c[2] # n), !.data[n] = ""]
Unload(m, n) ==
  IF n \notin Names(m) THEN Ans(Forget(m, n), "", <<>>, <<>>)
  ELSE LET e == m.es[At(m, n)]  v == Visit(m, e, n, "down") IN
       IF ~e.down THEN Ans(SetState(v, n, "ShuttingDown"), "CommandFailed", <<>>, Seen(m, e, "down"))
       ELSE Ans(Forget(v, n), "", <<>>, Seen(m, e, "down"))
Run(m, c, ok) ==
  LET k == SelectSeq(m.cmds, LAMBDA x : x[1] = c) IN
  IF k = <<>> THEN Refused(m)
  ELSE LET e == m.es[At(m, k[1][2])]  v == Visit(m, e, "caller", c) IN
       IF ok THEN Ans(v, "", <<c \o ToString(e.who)>>, Seen(m, e, c)) ELSE Ans(v, "CommandFailed", <<>>, Seen(m, e, c))
Do(m, o) ==
  CASE o.op = "load" -> Load(m, o)
    [] o.op = "init" -> Initialize(m, o.name)
    [] o.op = "unload" -> Unload(m, o.name)
    [] o.op = "run" -> Run(m, o.name, o.ok)
    [] o.op = "config" -> Ans(IF o.name = "k" THEN [m EXCEPT !.k = o.v] ELSE [m EXCEPT !.q = o.v], "", <<>>, <<>>)
    [] o.op = "data" -> Ans([m EXCEPT !.data[o.name] = o.v], "", <<>>, <<>>)
=============================================================================
