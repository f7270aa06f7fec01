------------------------------ MODULE Place_TV ------------------------------
EXTENDS Place, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, bad, cov
About(a, e, tol) == a - e <= tol /\ e - a <= tol
\* the runs of each line: all between the bytes before it and those with it
Before(ls, k) == Sum([j \in 1..k - 1 |-> Bytes(ls[j])])
From(rs, k) == Sum([j \in 1..k - 1 |-> Len(rs[j].text)])
RunsOf(ls, rs, k) == LET lo == Before(ls, k)  hi == lo + Bytes(ls[k]) IN SelectSeq([j \in 1..Len(rs) |-> [r |-> rs[j], at |-> From(rs, j)]], LAMBDA y : lo <= y.at /\ y.at < hi)
Breadth(ys) == Sum([j \in 1..Len(ys) |-> ys[j].r.w + (IF j < Len(ys) THEN ys[j].r.gap ELSE 0)])
Above(ys) == Max({ys[j].r.asc : j \in 1..Len(ys)})
Under(ys) == Max({ys[j].r.desc : j \in 1..Len(ys)})
\* where the text goes off the frame it is moved back as one; then only how its runs lie to each other is looked at
Judge(r) ==
  LET ls == Lines(r)  rs == r.runs
      words == Flat([k \in 1..Len(ls) |-> Flat([j \in 1..Len(ls[k]) |-> ls[k][j].x])])
      said == Flat([k \in 1..Len(rs) |-> rs[k].text])
      some == SelectSeq([k \in 1..Len(ls) |-> k], LAMBDA k : ls[k] # <<>>)
      per == TLCEval([k \in 1..Len(ls) |-> RunsOf(ls, rs, k)])
      pitch == Pitch(r, ls)
      total == Sum([k \in 1..Len(ls) |-> High(pitch, ls[k])])
      top == TLCEval([k \in 1..Len(ls) |-> IF Len(ls) = 1 THEN Top(r, Above(per[1]) + Under(per[1])) ELSE Top(r, total) + Sum([j \in 1..k - 1 |-> High(pitch, ls[j])])])
      x(k, j) == Left(r, Breadth(per[k])) + Sum([i \in 1..j - 1 |-> per[k][i].r.w + per[k][i].r.gap])
      y(k, j) == top[k] + Above(per[k]) - per[k][j].r.asc
      all == UNION {{<<k, j>> : j \in 1..Len(per[k])} : k \in 1..Len(ls)}
      off == ~Positioned(r) /\ \E p \in all : y(p[1], p[2]) < 0 \/ y(p[1], p[2]) + (2 * per[p[1]][p[2]].r.size) > r.hh * 1000
      shift == LET p == <<some[1], 1>> IN IF off THEN per[p[1]][p[2]].r.y - y(p[1], p[2]) ELSE 0
      tol == 30 + (10 * Len(rs))
      amiss == {p \in all : ~About(per[p[1]][p[2]].r.x, x(p[1], p[2]), tol) \/ ~About(per[p[1]][p[2]].r.y, y(p[1], p[2]) + shift, tol)} IN
  IF words # said THEN "not the text of the event: " \o ToString(said)
  ELSE IF words = <<>> THEN ""
  ELSE IF Sum([k \in 1..Len(ls) |-> Sum([j \in 1..Len(per[k]) |-> Len(per[k][j].r.text)])]) # Len(words) THEN "a run goes on over the end of its line"
  ELSE IF amiss # {} THEN LET p == CHOOSE v \in amiss : \A o \in amiss : v[1] < o[1] \/ (v[1] = o[1] /\ v[2] <= o[2])  o == per[p[1]][p[2]].r IN
       "run " \o ToString(p[2]) \o " of line " \o ToString(p[1]) \o ": expected " \o ToString(<<x(p[1], p[2]), y(p[1], p[2]) + shift>>) \o " observed " \o ToString(<<o.x, o.y>>)
  ELSE ""
\* a drawing: the box around it, with the rectangle it is
Shape(r) ==
  LET d == r.shape  k == IF d.lvl = 2 THEN 2 ELSE IF d.lvl = 3 THEN 4 ELSE 1
      wide == Across(r, ((d.b[3] - d.b[1]) * 1000) \div k)  high == Down(r, ((d.b[4] - d.b[2]) * 1000) \div k)
      e == <<Left(r, wide), Top(r, high), Left(r, wide) + wide, Top(r, high) + high>> IN
  IF d.lvl = 0 THEN (IF r.shapes = <<>> THEN "" ELSE "a drawing out of nothing")
  ELSE IF Len(r.shapes) # 1 THEN "not one drawing"
  ELSE IF \E i \in 1..4 : ~About(r.shapes[1][i], e[i], 60) THEN "drawing: expected " \o ToString(e) \o " observed " \o ToString(r.shapes[1]) ELSE ""
\* what is seen of a line of the letter H: it begins and ends where its runs do and stands on their baseline
Ink(r) ==
  LET rs == r.runs  n == Len(rs)  z == rs[n]
      base == rs[1].y + rs[1].asc
      slack(o) == 1600 + ((o.w * 14) \div (100 * Len(o.text)))
      to == z.x + z.w IN
  IF ~r.ink \/ n = 0 THEN ""
  ELSE IF rs[1].x < 2000 \/ to > (r.w * 1000) - 2000 \/ rs[1].y < 2000 \/ base > (r.hh * 1000) - 2000 THEN ""
  ELSE IF r.box = <<>> THEN "nothing to be seen"
  ELSE IF r.box[1] * 1000 < rs[1].x - 1600 \/ r.box[1] * 1000 > rs[1].x + slack(rs[1]) THEN "seen from " \o ToString(r.box[1]) \o " on, placed at " \o ToString(rs[1].x)
  ELSE IF r.box[3] * 1000 > to + 1600 \/ r.box[3] * 1000 < to - slack(z) THEN "seen up to " \o ToString(r.box[3]) \o ", ends at " \o ToString(to)
  ELSE IF ~About(r.box[4] * 1000, base, 1600) THEN "seen down to " \o ToString(r.box[4]) \o ", stands on " \o ToString(base)
  ELSE ""
Err(r) == LET a == Judge(r) IN IF a # "" THEN a ELSE LET c == Shape(r) IN IF c # "" THEN c ELSE Ink(r)
How(r) == IF Positioned(r) THEN Placing(r)[1].n ELSE <<"bottom", "middle", "top">>[Row(Alignment(r)) + 1]
Reset(r) == [st |-> [ok |-> TRUE], err |-> "", tag |-> "reset"]
Step(s, r) == LET ls == Lines(r) IN
  [st |-> [ok |-> TRUE], err |-> Err(r),
   tag |-> "place/" \o How(r) \o "/" \o (IF r.shape.lvl > 0 THEN "drawing" ELSE IF Len(ls) > 1 THEN (IF \E k \in 1..Len(ls) : ls[k] = <<>> THEN "empty-line" ELSE "lines")
                                          ELSE IF Len(ls[1]) > 1 THEN "runs" ELSE "run")
           \o (IF r.ink THEN "+seen" ELSE "")]
INSTANCE TraceRun
=============================================================================
