------------------------------ MODULE Convert ------------------------------
(* What a conversion puts into the data file.  A session names the converter  *)
(* (`mode`) and holds the input files; numbers of the inputs are rationals.   *)
(* A trajectory is a sequence of samples [t, p, v].                           *)
EXTENDS Rat, TLC, FiniteSetsExt

\* k-th number (from 1) of the chosen columns of a row
Col(s, row, k) == row[s.columns[k] + 1]
Vec3(s, row, k) == <<Col(s, row, k), Col(s, row, k + 1), Col(s, row, k + 2)>>
\* columns: time, position, velocity; `at` is the column of the first coordinate
Sample(s, row, at, speeds) ==
  [t |-> Col(s, row, 1), p |-> Vec3(s, row, at), v |-> IF speeds THEN Vec3(s, row, at + 3) ELSE <<NaN, NaN, NaN>>]

RECURSIVE InsertLater(_, _)
InsertLater(seq, x) ==      \* keeps the order of equal times
  IF seq = <<>> THEN <<x>>
  ELSE IF RLt(x.t, seq[Len(seq)].t) THEN Append(InsertLater(SubSeq(seq, 1, Len(seq) - 1), x), seq[Len(seq)])
  ELSE Append(seq, x)
RECURSIVE ByTime(_)
ByTime(seq) == IF seq = <<>> THEN <<>> ELSE InsertLater(ByTime(SubSeq(seq, 1, Len(seq) - 1)), seq[Len(seq)])

\* samples that are not later than one before are left out
RECURSIVE Advancing(_)
Advancing(seq) ==
  IF seq = <<>> THEN <<>>
  ELSE LET before == Advancing(SubSeq(seq, 1, Len(seq) - 1))
           x == seq[Len(seq)]
       IN IF before = <<>> \/ RLt(before[Len(before)].t, x.t) THEN Append(before, x) ELSE before

(* Resampling at `steps` times spaced max/steps: the first and the last       *)
(* sample stay; between, a coordinate lies on the line through the samples    *)
(* before and after the one nearest in time (never the first).                *)
RAbs(a) == IF RLt(a, RZero) THEN RNeg(a) ELSE a
Nearest(seq, t) ==
  CHOOSE k \in 2..Len(seq) : \A j \in 2..Len(seq) :
     LET dk == RAbs(RSub(t, seq[k].t)) dj == RAbs(RSub(t, seq[j].t)) IN RLt(dk, dj) \/ (dk = dj /\ j <= k)
OnLine(a, b, t) ==
  [x \in 1..3 |-> RAdd(a.p[x], RMul(RDiv(RSub(b.p[x], a.p[x]), RSub(b.t, a.t)), RSub(t, a.t)))]
Resampled(seq, max, steps) ==
  [k \in 1..steps |->
     IF k = 1 THEN seq[1]
     ELSE IF k = steps THEN seq[Len(seq)]
     ELSE LET t == RMul(max, Norm(k - 1, steps))
              n == Nearest(seq, t)
          IN [t |-> t, v |-> seq[1].v,
              p |-> IF n = Len(seq) THEN <<NaN, NaN, NaN>> ELSE OnLine(seq[n - 1], seq[n + 1], t)]]

(* The velocity at the middle of a window of w samples: the slope there of    *)
(* the parabola that fits them best.  Windows where it has no simple form are *)
(* not in the sessions.                                                       *)
Fitted(seq, m, w) ==
  LET h == (w - 1) \div 2
      dt(k) == RSub(seq[k + 1].t, seq[k].t)
      slope(k, x) == RDiv(RSub(seq[k + 1].p[x], seq[k].p[x]), dt(k))
      lo == m - h
      even == \A k \in lo..(m + h - 1) : dt(k) = dt(lo)
      straight == \A x \in 1..3 : \A k \in lo..(m + h - 1) : slope(k, x) = slope(lo, x)
      squares == SumSet({k * k : k \in 1..h})
      central(x) == RDiv(RSum([k \in 1..h |-> RMul(R(k), RSub(seq[m + k].p[x], seq[m - k].p[x]))]),
                         RMul(R(2 * squares), dt(lo)))
      three(x) == RDiv(RAdd(RMul(slope(m - 1, x), dt(m)), RMul(slope(m, x), dt(m - 1))), RAdd(dt(m - 1), dt(m)))
  IN [x \in 1..3 |-> IF straight THEN slope(lo, x) ELSE IF even THEN central(x) ELSE IF w = 3 THEN three(x)
                     ELSE Assert(FALSE, "a fit without a simple form")]
WithVelocity(seq, w) ==
  LET h == (w - 1) \div 2
  IN [k \in 1..(Len(seq) - 2 * h) |-> [seq[k + h] EXCEPT !.v = Fitted(seq, k + h, w)]]

(* -------- trajectories ---------------------------------------------------- *)
Table(s, at, speeds) == [k \in 1..Len(s.text.rows) |-> Sample(s, s.text.rows[k], at, speeds)]
Speeds(s) == s.vel = 0
Shifted(seq) == [k \in 1..Len(seq) |-> [seq[k] EXCEPT !.t = RSub(@, seq[1].t)]]

Single(s) ==
  LET sorted == ByTime(Table(s, 2, Speeds(s)))
      shifted == Shifted(sorted)
      even == IF s.interp = 1 THEN Resampled(shifted, shifted[Len(shifted)].t, Len(shifted)) ELSE sorted
  IN << IF s.vel = 1 THEN WithVelocity(even, s.sampling) ELSE even >>

\* trajectories follow each other: a time before the last one starts the next; short ones are left out
RECURSIVE Chained(_)
Chained(seq) ==
  IF seq = <<>> THEN <<>>
  ELSE LET before == Chained(SubSeq(seq, 1, Len(seq) - 1))
           x == seq[Len(seq)]
       IN IF before = <<>> THEN << <<x>> >>
          ELSE LET last == before[Len(before)]
               IN IF RLt(x.t, last[Len(last)].t) THEN Append(before, <<x>>)
                  ELSE Append(SubSeq(before, 1, Len(before) - 1), Append(last, x))
Long(c) == Len(c) >= 10

\* trajectories by their number
Numbers(s) == {Col(s, s.text.rows[k], 2) : k \in 1..Len(s.text.rows)}
RECURSIVE Ascending(_)
Ascending(set) ==
  IF set = {} THEN <<>>
  ELSE LET m == CHOOSE x \in set : \A y \in set : ~RLt(y, x) IN <<m>> \o Ascending(set \ {m})
Numbered(s) ==
  LET rows(id) == SelectSeq(s.text.rows, LAMBDA r : Col(s, r, 2) = id)
      ids == Ascending(Numbers(s))
  IN [k \in 1..Len(ids) |-> ByTime([j \in 1..Len(rows(ids[k])) |-> Sample(s, rows(ids[k])[j], 3, Speeds(s))])]

RMax(set) == CHOOSE x \in set : \A y \in set : ~RLt(x, y)
RMin(set) == CHOOSE x \in set : \A y \in set : ~RLt(y, x)
Several(s) ==
  LET all == IF s.mode = "chain" THEN Chained(Table(s, 2, Speeds(s))) ELSE Numbered(s)
      used == IF s.mode = "chain" THEN SelectSeq(all, Long) ELSE all
      max == RMax(UNION {{all[k][j].t : j \in 1..Len(all[k])} : k \in 1..Len(all)})
      steps == Max({Len(all[k]) : k \in 1..Len(all)})
      even(c) == IF s.interp = 1 THEN Resampled(c, max, steps) ELSE c
      done(c) == IF s.vel = 1 THEN WithVelocity(even(c), 9) ELSE even(c)
  IN [k \in 1..Len(used) |-> done(used[k])]

Trajectories(s) ==
  LET c == IF s.mode = "csv" THEN Single(s) ELSE Several(s) IN [k \in 1..Len(c) |-> Advancing(c[k])]

(* -------- a file per step ------------------------------------------------- *)
\* particles of a step [id, r, ty, c, p, v], in the order of the file
TableStep(s, f) ==
  [k \in 1..Len(f.rows) |->
     LET row == f.rows[k]
         \* velocities can be left out
         v == IF Len(s.columns) = 4 THEN <<NaN, NaN, NaN>> ELSE Vec3(s, row, 5)
     IN [id |-> Col(s, row, 1), p |-> Vec3(s, row, 2), v |-> v, r |-> s.radius, ty |-> RZero, c |-> RZero]]
RECURSIVE InsertId(_, _)
InsertId(seq, x) ==
  IF seq = <<>> THEN <<x>>
  ELSE IF RLt(x.id, seq[Len(seq)].id) THEN Append(InsertId(SubSeq(seq, 1, Len(seq) - 1), x), seq[Len(seq)])
  ELSE Append(seq, x)
RECURSIVE ById(_)
ById(seq) == IF seq = <<>> THEN <<>> ELSE InsertId(ById(SubSeq(seq, 1, Len(seq) - 1)), seq[Len(seq)])
RECURSIVE Joined(_)
Joined(pieces) == IF pieces = <<>> THEN <<>> ELSE Joined(SubSeq(pieces, 1, Len(pieces) - 1)) \o pieces[Len(pieces)]
VtkStep(s, f) ==
  LET parts == ById(Joined(f.pieces))
  IN [k \in 1..Len(parts) |->
        [parts[k] EXCEPT !.r = IF s.diameter = 1 THEN RMul(@, <<1, 2>>) ELSE @, !.ty = IF s.types = 1 THEN @ ELSE ROne]
        @@ [c |-> ROne]]

\* files of a folder are taken in the order of the numbers in their names
RECURSIVE InsertStep(_, _)
InsertStep(seq, x) ==
  IF seq = <<>> THEN <<x>>
  ELSE IF x.step < seq[Len(seq)].step THEN Append(InsertStep(SubSeq(seq, 1, Len(seq) - 1), x), seq[Len(seq)])
  ELSE Append(seq, x)
RECURSIVE ByStep(_)
ByStep(seq) == IF seq = <<>> THEN <<>> ELSE InsertStep(ByStep(SubSeq(seq, 1, Len(seq) - 1)), seq[Len(seq)])
VtkFiles(s) == IF s.folder = 1 THEN ByStep(s.files) ELSE s.files
InOrder(files) == \A k \in 1..(Len(files) - 1) : files[k].step <= files[k + 1].step

Steps(s) ==
  IF s.mode = "steps" THEN [k \in 1..Len(s.files) |-> [t |-> s.times[k], parts |-> TableStep(s, s.files[k])]]
  ELSE LET fs == VtkFiles(s) IN [k \in 1..Len(fs) |-> [t |-> RMul(R(fs[k].step), s.dt), parts |-> VtkStep(s, fs[k])]]

(* -------- the file --------------------------------------------------------- *)
\* the root of a square number, halving the distance to it
RECURSIVE Root(_, _)
Root(n, r) == IF r * r <= n THEN r ELSE Root(n, (r + n \div r) \div 2)
ISqrt(n) == LET r == Root(n, Min2(n + 1, 40000)) IN IF r * r = n THEN r ELSE Assert(FALSE, "no square")
SpeedOf(v) ==
  LET sq == RSum([x \in 1..3 |-> RMul(v[x], v[x])]) IN <<ISqrt(sq[1]), ISqrt(sq[2])>>

Column(seq, x) == {seq[k][x] : k \in 1..Len(seq)}
Extents(ps) == << [x \in 1..3 |-> RMin(Column(ps, x))], [x \in 1..3 |-> RMax(Column(ps, x))] >>
Summary(list) ==
  << RMin({list[k] : k \in 1..Len(list)}), RDiv(RSum(list), R(Len(list))), RMax({list[k] : k \in 1..Len(list)}) >>
Last(seq) == seq[Len(seq)]

Common(ps, vs) ==
  [ok |-> TRUE, dims |-> Extents(ps), vel |-> [x \in 1..3 |-> Summary([k \in 1..Len(vs) |-> vs[k][x]])],
   vmag |-> Summary([k \in 1..Len(vs) |-> SpeedOf(vs[k])])]

ByParticle(s) ==
  LET c == Trajectories(s)
      all == Joined(c)
      const(seq, x) == [k \in 1..Len(seq) |-> x]
      last == Last(c)
      \* a single trajectory and chained ones are particle 1, numbered ones count from 0
      id(k) == IF s.mode = "id_line" THEN R(k - 1) ELSE ROne
      type == IF s.mode = "id_line" THEN RZero ELSE ROne
  IN Common([k \in 1..Len(all) |-> all[k].p], [k \in 1..Len(all) |-> all[k].v])
     @@ [by |-> "particle", type |-> R(2), n |-> R(Len(c)), steps |-> R(Max({Len(c[k]) : k \in 1..Len(c)})),
         rate |-> RSub(Last(last).t, last[Len(last) - 1].t),
         time |-> << RMin({all[k].t : k \in 1..Len(all)}), RMax({all[k].t : k \in 1..Len(all)}) >>,
         axis |-> [k \in 1..Len(last) |-> last[k].t],
         groups |-> [k \in 1..Len(c) |->
            [time |-> [j \in 1..Len(c[k]) |-> c[k][j].t], id |-> const(c[k], id(k)), radius |-> const(c[k], s.radius),
             ppcloud |-> const(c[k], ROne), particletype |-> const(c[k], type),
             velocity |-> [j \in 1..Len(c[k]) |-> c[k][j].v], position |-> [j \in 1..Len(c[k]) |-> c[k][j].p]]],
         back |-> IF s.back = 0 THEN <<>> ELSE
            [t \in 1..Len(c[1]) |->
               [ok |-> TRUE, t |-> c[1][t].t,
                parts |-> [k \in 1..Len(c) |-> [p |-> c[k][t].p, v |-> c[k][t].v, r |-> s.radius, d |-> ROne, c |-> ROne,
                                                 ty |-> type, id |-> R(k - 1)]]]]]

ByStepFile(s) ==
  LET st == Steps(s)
      all == Joined([k \in 1..Len(st) |-> st[k].parts])
      list(f, k) == [j \in 1..Len(st[k].parts) |-> st[k].parts[j][f]]
      ids == {all[k].id : k \in 1..Len(all)}
  IN Common([k \in 1..Len(all) |-> all[k].p], [k \in 1..Len(all) |-> all[k].v])
     @@ [by |-> "timestep", type |-> R(1), steps |-> R(Len(st)),
         n |-> IF s.mode = "steps" THEN R(Len(Last(st).parts)) ELSE RMax(ids),
         rate |-> IF Len(st) = 1 THEN st[1].t ELSE RSub(Last(st).t, st[Len(st) - 1].t),
         time |-> <<st[1].t, Last(st).t>>,
         axis |-> [k \in 1..Len(st) |-> st[k].t],
         groups |-> [k \in 1..Len(st) |->
            [time |-> st[k].t, id |-> list("id", k), radius |-> list("r", k), ppcloud |-> list("c", k),
             particletype |-> list("ty", k), velocity |-> list("v", k), position |-> list("p", k)]],
         back |-> IF s.back = 0 THEN <<>> ELSE
            [k \in 1..Len(st) |->
               [ok |-> TRUE, t |-> st[k].t,
                parts |-> [j \in 1..Len(st[k].parts) |->
                   LET q == st[k].parts[j] IN [p |-> q.p, v |-> q.v, r |-> q.r, d |-> ROne, c |-> q.c, ty |-> q.ty, id |-> q.id]]]]]

Converted(s) ==
  IF s.mode \in {"csv", "chain", "id_line"} THEN ByParticle(s)
  ELSE IF s.mode # "steps" /\ ~InOrder(VtkFiles(s)) THEN [ok |-> FALSE]
  ELSE ByStepFile(s)

\* means of fitted velocities are judged where the session says that they are small rationals,
\* ranges of velocities where there are velocities
Judged(s, o) ==
  IF ~o.ok THEN o
  ELSE IF s.mode = "steps" /\ Len(s.columns) = 4 THEN [f \in DOMAIN o \ {"vel", "vmag"} |-> o[f]]
  ELSE IF s.means = 1 THEN o
  ELSE [o EXCEPT !.vel = [x \in 1..3 |-> <<o.vel[x][1], o.vel[x][3]>>], !.vmag = <<o.vmag[1], o.vmag[3]>>]
=============================================================================
