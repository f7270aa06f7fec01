-------------------------------- MODULE Paint --------------------------------
(* Frames made of drawings: rectilinear shapes in script units, placed,       *)
(* aligned, scaled to the frame, clipped, and laid over each other.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
F == INSTANCE Fade

Known == 0..255
\* --- which events, in which order
At(t) == IF t < 0 THEN 0 ELSE t
Shown(e, t) == At(e.s) <= t /\ t < At(e.e)
Under(a, c) == a.ly < c.ly \/ (a.ly = c.ly /\ At(a.s) < At(c.s))
RECURSIVE Lay(_, _)
\* a stable order: an event goes behind those already laid that it does not belong under
Slot(es, e) == Len(SelectSeq(es, LAMBDA x : ~Under(e, x)))
Lay(es, todo) == IF todo = <<>> THEN es ELSE LET k == Slot(es, Head(todo)) IN Lay(SubSeq(es, 1, k) \o <<Head(todo)>> \o SubSeq(es, k + 1, Len(es)), Tail(todo))
Stack(evs, t) == Lay(<<>>, SelectSeq(evs, LAMBDA e : Shown(e, t)))

\* --- colour and opacity: [rgb, opacity 0..255]
StyleOf(q, e) == IF \E i \in 1..Len(q.styles) : q.styles[i].name = e.st
                 THEN q.styles[CHOOSE i \in 1..Len(q.styles) : q.styles[i].name = e.st /\ \A j \in i + 1..Len(q.styles) : q.styles[j].name # e.st]
                 ELSE IF \E i \in 1..Len(q.styles) : q.styles[i].name = "Default"
                 THEN q.styles[CHOOSE i \in 1..Len(q.styles) : q.styles[i].name = "Default" /\ \A j \in i + 1..Len(q.styles) : q.styles[j].name # "Default"]
                 ELSE q.styles[1]
\* the last of the alpha tags counts; al lists their values in order
Opacity(q, e, t) ==
  LET base == 255 - (IF e.al # <<>> THEN e.al[Len(e.al)] ELSE StyleOf(q, e).alpha)
      f == F!Left(At(e.s), At(e.e), t, e.fad) IN (base * f[1]) \div f[2]
Colour(q, e) == IF e.col # <<>> THEN e.col ELSE StyleOf(q, e).rgb

\* --- placement along one axis: an edge at script coordinate v lies at (A*v + B)/D pixels
Pow2(n) == <<1, 2, 4, 8, 16, 32>>[n]
Coords(e, ax) == UNION {{e.polys[i][j][ax] : j \in 1..Len(e.polys[i])} : i \in 1..Len(e.polys)}
Align(q, e) == IF e.an > 0 THEN e.an ELSE StyleOf(q, e).an
Side(q, e, ax) == LET a == Align(q, e) IN IF ax = 1 THEN <<"high", "low", "mid">>[(a % 3) + 1] ELSE IF a <= 3 THEN "high" ELSE IF a <= 6 THEN "mid" ELSE "low"
Size(q, ax) == IF ax = 1 THEN q.w ELSE q.hh
Res(q, ax) == IF ax = 1 THEN (IF q.px = 0 THEN 1920 ELSE q.px) ELSE (IF q.py = 0 THEN 1080 ELSE q.py)
Scale(q, e, t, ax) ==
  LET w == Size(q, ax)  r == Res(q, ax)  k == Pow2(e.lvl)
      g == IF e.kind = "move" THEN F!Gone(At(e.s), At(e.e), t, Min({e.p[5], e.p[6]}), Max({e.p[5], e.p[6]})) ELSE <<0, 1>>
      d == g[2]
      lo == Min(Coords(e, ax))  hi == Max(Coords(e, ax))
      gap == 10 * 2 * w * d * k                                       \* the margin of every style here
      place == CASE e.kind = "none" -> (CASE Side(q, e, ax) = "mid" -> w * d * r * k [] Side(q, e, ax) = "low" -> gap [] OTHER -> (2 * w * d * r * k) - gap)
                 [] e.kind = "pos" -> 2 * w * k * d * e.p[ax]
                 [] e.kind = "move" -> 2 * w * k * (e.p[ax] * d + ((e.p[ax + 2] - e.p[ax]) * g[1]))
      shift == CASE Side(q, e, ax) = "low" -> 2 * d * w * lo [] Side(q, e, ax) = "mid" -> d * w * (lo + hi) [] Side(q, e, ax) = "high" -> 2 * d * w * hi IN
  [a |-> 2 * d * w, b |-> place - shift, d |-> 2 * d * r * k]
On(z, v) == (z.a * v) + z.b

\* --- coverage of a pixel: "in", "out", or "part" where an edge runs through it
Edges(e) == UNION {{<<i, j>> : j \in 1..Len(e.polys[i])} : i \in 1..Len(e.polys)}
From(e, g) == e.polys[g[1]][g[2]]
To(e, g) == e.polys[g[1]][(g[2] % Len(e.polys[g[1]])) + 1]
\* edges in pixel units times z.d: <<vertical?, where, from, to>>
Lines(e, zx, zy) == [g \in Edges(e) |->
   LET p == From(e, g)  r == To(e, g) IN
   IF p[1] = r[1] THEN <<TRUE, On(zx, p[1]), On(zy, p[2]), On(zy, r[2])>> ELSE <<FALSE, On(zy, p[2]), On(zx, p[1]), On(zx, r[1])>>]
Between(a, c, lo, hi) == (a < hi /\ c > lo) \/ (c < hi /\ a > lo)
Spans(a, c, m) == (a <= m /\ m < c) \/ (c <= m /\ m < a)
RECURSIVE Winding(_, _)
Winding(ls, gs) == IF gs = {} THEN 0 ELSE LET g == CHOOSE x \in gs : TRUE IN (IF ls[g][3] < ls[g][4] THEN 1 ELSE -1) + Winding(ls, gs \ {g})
Cover(ls, zx, zy, x, y) ==
  LET gs == DOMAIN ls  xl == x * zx.d  xh == (x + 1) * zx.d  yl == y * zy.d  yh == (y + 1) * zy.d
      crossed == \E g \in gs : IF ls[g][1] THEN xl < ls[g][2] /\ ls[g][2] < xh /\ Between(ls[g][3], ls[g][4], yl, yh)
                                           ELSE yl < ls[g][2] /\ ls[g][2] < yh /\ Between(ls[g][3], ls[g][4], xl, xh) IN
  IF crossed THEN "part"
  ELSE IF Winding(ls, {g \in gs : ls[g][1] /\ ls[g][2] <= xl /\ Spans(ls[g][3], ls[g][4], yl + zy.d \div 2)}) # 0 THEN "in" ELSE "out"
\* a clip takes whole pixels, by their centres
Beyond(q, ax, c, x) == LET m == (2 * x + 1) * Res(q, ax)  v == 2 * c * Size(q, ax) IN IF m > v THEN 1 ELSE IF m < v THEN -1 ELSE 0
Inside(q, e, x, y) ==
  LET o == e.clip
      c == <<Min({o[1], o[3]}), Min({o[2], o[4]}), Max({o[1], o[3]}), Max({o[2], o[4]})>>
      bs == {Beyond(q, 1, c[1], x), -Beyond(q, 1, c[3], x), Beyond(q, 2, c[2], y), -Beyond(q, 2, c[4], y)} IN
  IF 0 \in bs /\ -1 \notin bs THEN "part" ELSE IF bs = {1} THEN "in" ELSE "out"
Let(q, e, x, y) == IF e.clip = <<>> THEN "in" ELSE LET i == Inside(q, e, x, y) IN IF ~e.inv \/ i = "part" THEN i ELSE IF i = "in" THEN "out" ELSE "in"
Both(a, c) == IF a = "out" \/ c = "out" THEN "out" ELSE IF a = "part" \/ c = "part" THEN "part" ELSE "in"

\* --- a pixel: its colour times its opacity, and its opacity, in 256ths; Unknown where part of one is covered
Unknown == <<>>
Blank == <<0, 0, 0, 0>>
Blend(px, rgb, a) == IF px = Unknown THEN (IF a = 255 THEN [k \in 1..4 |-> IF k = 4 THEN 255 * 256 ELSE rgb[k] * 256] ELSE Unknown)
                     ELSE [k \in 1..4 |-> (IF k = 4 THEN a * 256 ELSE (rgb[k] * a * 256) \div 255) + ((px[k] * (255 - a)) \div 255)]
\* what an event does to a frame
Cells(q) == q.w * q.hh
Empty(e) == e.polys = <<>>
Over(q, px, e, t) ==
  IF Empty(e) THEN px
  ELSE LET zx == Scale(q, e, t, 1)  zy == Scale(q, e, t, 2)
           ls == TLCEval(Lines(e, zx, zy))
           a == Opacity(q, e, t)  rgb == Colour(q, e) IN
       TLCEval([k \in 1..Cells(q) |->
         LET x == (k - 1) % q.w  y == (k - 1) \div q.w
             c == Both(Let(q, e, x, y), Cover(ls, zx, zy, x, y)) IN
         IF c = "out" \/ a = 0 THEN px[k] ELSE IF c = "part" THEN Unknown ELSE Blend(px[k], rgb, a)])
RECURSIVE Painted(_, _, _, _)
Painted(q, px, es, t) == IF es = <<>> THEN px ELSE Painted(q, Over(q, px, Head(es), t), Tail(es), t)
Frame(q, t) == Painted(q, [k \in 1..Cells(q) |-> Blank], Stack(q.evs, t), t)
Off(n, m) == IF n > m THEN n - m ELSE m - n
\* each layer may round once
Close(px, o, n) == px = Unknown \/ \A k \in 1..4 : Off(px[k], o[k] * 256) <= 256 * (1 + n)
=============================================================================
