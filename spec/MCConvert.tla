----------------------------- MODULE MCConvert -----------------------------
(* Conversions: every small input of a kind is built piece by piece, and what *)
(* Convert puts into the file is checked against statements about the input:  *)
(* which rows a group holds, in which order, what the attributes say, that a  *)
(* fit is the best parabola.  With EMIT every input is printed and converted  *)
(* by the real code.                                                          *)
EXTENDS Convert, Json, IOUtils
CONSTANTS Mode, MaxLen

VARIABLES in, flags, rows        \* rows: of a table [t, id]
vars == <<in, flags, rows>>

ZeroOne == {0, 1}
Dir == <<2, 3, 6>>
Along(x) == [k \in 1..3 |-> RMul(x, R(Dir[k]))]
At(k) == <<R(7 * k), R(-2 * k), R(k * k - 5)>>
Moving(k) == Along(R(((k * 5) % 7) - 2))

(* -------- pieces of the inputs --------------------------------------------- *)
Rows ==
  IF Mode = "csv" THEN {[t |-> t, id |-> 0] : t \in {-1, 0, 2, 3}}
  ELSE {[t |-> t, id |-> i] : t \in {-1, 0, 2}, i \in {0, 9}}
\* trajectories of a chain: how many samples, and which is at the time of the one before
Runs == {[len |-> n, rep |-> r] : n \in {9, 10, 11}, r \in {0, 4, 9}}
Lists == {<<4>>, <<7, 1>>, <<1, 7>>, <<3, 9, 2>>}
Files == {[step |-> k, ids |-> l] : k \in {0, 2, 10}, l \in Lists}
Tables == {[step |-> 0, ids |-> l] : l \in Lists}

\* times or values of motions
Gaps == {1, 2, 4}

Begin ==
  CASE Mode \in {"csv", "id_line", "chain"} -> flags = [first |-> 0]
    [] Mode = "vtk" -> flags \in [folder : ZeroOne, diameter : ZeroOne, types : ZeroOne, xml : ZeroOne]
    [] Mode = "steps" -> flags = [first |-> 0]
    [] Mode = "fit" -> flags \in [w : {3, 5}, dt : {1, 2}]
    [] Mode = "uneven" -> flags \in [a : {-1, 0, 2}, b : {0, 1}]
    [] Mode = "interp" -> flags \in [a : {-2, 1}]
Piece ==
  CASE Mode \in {"csv", "id_line"} -> Rows
    [] Mode = "chain" -> Runs
    [] Mode = "vtk" -> {f \in Files : \A k \in 1..Len(in) : in[k].step # f.step}
    [] Mode = "steps" -> Tables
    [] Mode = "fit" -> {0, 1, 3}
    [] OTHER -> Gaps

(* -------- inputs ------------------------------------------------------------ *)
RECURSIVE Total(_)
Total(seq) == IF seq = <<>> THEN 0 ELSE seq[1] + Total(Tail(seq))
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))
Run(r) == [k \in 1..r.len |-> [t |-> IF k = r.rep THEN k - 3 ELSE k - 2, id |-> 0]]

Init == in = <<>> /\ rows = <<>> /\ Begin
Next ==
  /\ Len(in) < MaxLen
  /\ \E x \in Piece :
       /\ in' = Append(in, x)
       /\ rows' = IF Mode = "chain" THEN rows \o Run(x) ELSE IF Mode \in {"csv", "id_line"} THEN Append(rows, x) ELSE <<>>
  /\ UNCHANGED flags
Spec == Init /\ [][Next]_vars

Cumulated(gaps, k) == Total([j \in 1..(k - 1) |-> gaps[j]])
Motion ==      \* [t, x]: along Dir
  IF Mode = "fit" THEN [k \in 1..Len(in) |-> [t |-> flags.dt * (k - 1), x |-> in[k]]]
  ELSE [k \in 1..(Len(in) + 1) |->
         LET t == Cumulated(in, k)
         IN [t |-> t, x |-> IF Mode = "interp" THEN flags.a * t + 3 ELSE flags.a * t * t + flags.b * t - 2]]
Moves == Mode \in {"fit", "uneven", "interp"}
W == IF Mode = "fit" THEN flags.w ELSE 3

Base == [kind |-> "convert", vel |-> 0, interp |-> 0, means |-> 1, back |-> 1, radius |-> <<3, 2>>]
TextOf(list, cols) ==
  [cols |-> cols, rows |-> list, delim |-> ",", header |-> 1, comment |-> "#", notes |-> <<1>>]
RowOf(k) ==
  LET head == IF Mode = "id_line" THEN <<R(rows[k].t), R(rows[k].id)>> ELSE <<R(rows[k].t)>>
  IN head \o At(k) \o Moving(k)
Particle(f, i) ==
  [id |-> R(i), r |-> Norm(i, 2), ty |-> R(i % 3), p |-> <<R(i), R(f), R(i - f)>>, v |-> Moving(i + f)]

Session ==
  CASE Mode = "csv" ->
         Base @@ [mode |-> "csv", sampling |-> 9, columns |-> <<0, 1, 2, 3, 4, 5, 6>>,
                  text |-> TextOf([k \in 1..Len(rows) |-> RowOf(k)], 7)]
    [] Mode = "chain" ->
         [Base EXCEPT !.back = 0] @@ [mode |-> "chain", columns |-> <<0, 1, 2, 3, 4, 5, 6>>,
                  text |-> TextOf([k \in 1..Len(rows) |-> RowOf(k)], 7)]
    [] Mode = "id_line" ->
         [Base EXCEPT !.back = 0] @@ [mode |-> "id_line", columns |-> <<0, 1, 2, 3, 4, 5, 6, 7>>,
                  text |-> TextOf([k \in 1..Len(rows) |-> RowOf(k)], 8)]
    [] Mode = "steps" ->
         Base @@ [mode |-> "steps", columns |-> <<0, 1, 2, 3, 4, 5, 6>>,
                  times |-> [k \in 1..Len(in) |-> Norm(k * k - 3, 2)],
                  files |-> [k \in 1..Len(in) |->
                     TextOf([j \in 1..Len(in[k].ids) |-> LET q == Particle(k, in[k].ids[j]) IN <<q.id>> \o q.p \o q.v], 7)]]
    [] Mode = "vtk" ->
         Base @@ [mode |-> IF flags.xml = 1 THEN "xml" ELSE "legacy", dt |-> <<1, 2>>, vtk |-> "poly",
                  ext |-> IF flags.xml = 1 THEN "vtu" ELSE "vtk", diameter |-> flags.diameter, types |-> flags.types, folder |-> flags.folder,
                  slash |-> 0, decoys |-> 1, wide |-> 0,
                  files |-> [k \in 1..Len(in) |->
                     [step |-> in[k].step, pieces |-> << [j \in 1..Len(in[k].ids) |-> Particle(in[k].step, in[k].ids[j])] >>]]]
    [] OTHER ->
         [Base EXCEPT !.vel = 1, !.means = 0, !.interp = IF Mode = "interp" THEN 1 ELSE 0]
           @@ [mode |-> "csv", sampling |-> W, columns |-> <<0, 1, 2, 3>>,
               text |-> TextOf([k \in 1..Len(Motion) |-> <<R(Motion[k].t)>> \o Along(R(Motion[k].x))], 4)]

Tabular == Mode \in {"csv", "id_line", "chain"}
\* a trajectory of one sample has no rate
Enough ==
  CASE Tabular ->
         LET runs == IF Mode = "chain" THEN {k \in 1..Len(in) : in[k].len >= 10} ELSE {1}
         IN runs # {} /\ \A i \in {rows[k].id : k \in 1..Len(rows)} : Cardinality({rows[k].t : k \in {j \in 1..Len(rows) : rows[j].id = i}}) >= 2
    [] Mode = "fit" -> Len(in) > W
    [] Mode \in {"uneven", "interp"} -> Len(in) >= 4
    [] OTHER -> TRUE
Ready == in # <<>> /\ Enough

(* -------- which rows a trajectory holds -------------------------------------- *)
First(idx, t) == Min({k \in idx : rows[k].t = t})
\* the group g holds, in order of time, the first of the rows idx of every time
Holds(g, idx) ==
  LET times == {rows[k].t : k \in idx}
      n == Cardinality(times)
  IN /\ Len(g.time) = n /\ Len(g.position) = n /\ Len(g.velocity) = n
     /\ {g.time[k] : k \in 1..n} = {R(t) : t \in times}
     /\ \A k \in 1..(n - 1) : RLt(g.time[k], g.time[k + 1])
     /\ \A k \in 1..n : LET j == First(idx, g.time[k][1]) IN g.position[k] = At(j) /\ g.velocity[k] = Moving(j)
     /\ \A c \in {g.radius, g.id, g.ppcloud, g.particletype} : Len(c) = n
Indices ==    \* of the trajectories, in order
  LET N == 1..Len(rows)
      ids == {rows[k].id : k \in N}
      starts == {k \in N : k = 1 \/ rows[k].t < rows[k - 1].t}
      run(a) == {k \in N : k >= a /\ \A b \in starts : ~(a < b /\ b <= k)}
      good == {a \in starts : Cardinality(run(a)) >= 10}
      nth(set, k) == CHOOSE x \in set : Cardinality({y \in set : y < x}) = k - 1
  IN IF Mode = "csv" THEN <<N>>
     ELSE IF Mode = "id_line" THEN [k \in 1..Cardinality(ids) |-> {j \in N : rows[j].id = nth(ids, k)}]
     ELSE [k \in 1..Cardinality(good) |-> run(nth(good, k))]
Rowwise(Out) == Ready /\ Tabular =>
  LET g == Out.groups
      idx == Indices
  IN Len(g) = Len(idx) /\ (\A k \in 1..Len(g) : Holds(g[k], idx[k])) /\ Out.n = R(Len(g))

(* -------- files per step ------------------------------------------------------ *)
Sorted(seq) == \A k \in 1..(Len(seq) - 1) : RLt(seq[k], seq[k + 1])
Stepwise(Out) == Ready /\ Mode = "vtk" =>
  LET ordered == \A k \in 1..(Len(in) - 1) : in[k].step < in[k + 1].step
      file(t) == CHOOSE k \in 1..Len(in) : Norm(in[k].step, 2) = t
  IN IF flags.folder = 0 /\ ~ordered THEN ~Out.ok
     ELSE /\ Out.ok /\ Sorted(Out.axis) /\ Len(Out.groups) = Len(in)
          /\ \A k \in 1..Len(in) :
               LET g == Out.groups[k]
                   f == in[file(g.time)]
               IN /\ g.time = Out.axis[k] /\ Sorted(g.id)
                  /\ {g.id[j] : j \in 1..Len(g.id)} = {R(f.ids[j]) : j \in 1..Len(f.ids)}
                  /\ \A j \in 1..Len(g.id) :
                       LET q == Particle(f.step, g.id[j][1])
                       IN /\ g.position[j] = q.p /\ g.velocity[j] = q.v
                          /\ g.radius[j] = (IF flags.diameter = 1 THEN RDiv(q.r, R(2)) ELSE q.r)
                          /\ g.particletype[j] = (IF flags.types = 1 THEN q.ty ELSE ROne)
Tablewise(Out) == Ready /\ Mode = "steps" =>
  \A k \in 1..Len(in) :
    LET g == Out.groups[k]
    IN g.id = [j \in 1..Len(in[k].ids) |-> R(in[k].ids[j])] /\ g.time = Session.times[k]
       /\ \A j \in 1..Len(g.id) : g.position[j] = Particle(k, in[k].ids[j]).p /\ g.velocity[j] = Particle(k, in[k].ids[j]).v

(* -------- attributes ------------------------------------------------------------ *)
AllOf(Out, f) == Joined([k \in 1..Len(Out.groups) |-> Out.groups[k][f]])
Attributes(Out) == Ready /\ Out.ok =>
  LET ps == AllOf(Out, "position")
      vs == AllOf(Out, "velocity")
      N == 1..Len(ps)
      ts == IF Out.by = "particle" THEN AllOf(Out, "time") ELSE Out.axis
  IN /\ \A x \in 1..3 : /\ \A k \in N : ~RLt(ps[k][x], Out.dims[1][x]) /\ ~RLt(Out.dims[2][x], ps[k][x])
                        /\ (\E k \in N : ps[k][x] = Out.dims[1][x]) /\ (\E k \in N : ps[k][x] = Out.dims[2][x])
                        /\ \A k \in N : ~RLt(vs[k][x], Out.vel[x][1]) /\ ~RLt(Out.vel[x][3], vs[k][x])
                        /\ RMul(Out.vel[x][2], R(Len(vs))) = RSum([k \in N |-> vs[k][x]])
     /\ \A k \in 1..Len(ts) : ~RLt(ts[k], Out.time[1]) /\ ~RLt(Out.time[2], ts[k])
     /\ Out.steps = R(Max({IF Out.by = "particle" THEN Len(Out.groups[k].time) ELSE Len(Out.groups) : k \in 1..Len(Out.groups)}))
     \* all speeds are along one direction
     /\ \A k \in N : ~RLt(Out.vmag[3], RAbs(RDiv(RMul(vs[k][1], R(7)), R(2))))

(* -------- fits ------------------------------------------------------------------ *)
\* residuals of the parabola with the slope that was fitted are orthogonal to 1, k and k^2
Pow(x, n) == IF n = 0 THEN 1 ELSE x ^ n
Best(Out) == Ready /\ Mode = "fit" =>
  LET h == (W - 1) \div 2
      ks == [i \in 1..W |-> i - h - 1]
      moment(n) == Total([i \in 1..W |-> Pow(ks[i], n)])
      m0 == W   m2 == moment(2)   m4 == moment(4)
      g == Out.groups[1]
  IN \A m \in 1..Len(g.time) :
       LET y(i) == Motion[m + i - 1].x                    \* i-th of the window
           c1 == RMul(RDiv(g.velocity[m][1], R(2)), R(flags.dt))
           y0 == Total([i \in 1..W |-> y(i)])
           y1 == Total([i \in 1..W |-> ks[i] * y(i)])
           y2 == Total([i \in 1..W |-> ks[i] * ks[i] * y(i)])
           det == m0 * m4 - m2 * m2
           c0 == Norm(y0 * m4 - y2 * m2, det)
           c2 == Norm(m0 * y2 - m2 * y0, det)
           r(i) == RSub(R(y(i)), RAdd(c0, RAdd(RMul(c1, R(ks[i])), RMul(c2, R(ks[i] * ks[i])))))
       IN \A n \in 0..2 : RSum([i \in 1..W |-> RMul(r(i), R(Pow(ks[i], n)))]) = RZero
\* three samples of a parabola give its slope, whatever the gaps
Slopes(Out) == Ready /\ Mode = "uneven" =>
  LET g == Out.groups[1]
  IN \A m \in 1..Len(g.time) : g.velocity[m] = Along(RAdd(RMul(R(2 * flags.a), g.time[m]), R(flags.b)))
\* a straight line stays where it was
Between ==
  LET seq == Resampled([k \in 1..Len(Motion) |-> [t |-> R(Motion[k].t), p |-> Along(R(Motion[k].x)), v |-> <<NaN, NaN, NaN>>]],
                       R(Motion[Len(Motion)].t), Len(Motion))
  IN [ok |-> \A k \in 1..Len(seq) : seq[k].p[1] # NaN, seq |-> seq]
Line(Out) == Ready /\ Mode = "interp" /\ Between.ok =>
  LET g == Out.groups[1]
  IN \A m \in 1..Len(g.time) :
       g.position[m] = Along(RAdd(RMul(R(flags.a), g.time[m]), R(3))) /\ g.velocity[m] = Along(R(flags.a))

Right == (Mode = "interp" /\ Ready => Between.ok) =>
  LET Out == Converted(Session)
  IN Rowwise(Out) /\ Stepwise(Out) /\ Tablewise(Out) /\ Attributes(Out) /\ Best(Out) /\ Slopes(Out) /\ Line(Out)
Emit == ("EMIT" \in DOMAIN IOEnv /\ Ready /\ (Mode # "interp" \/ Between.ok)) => PrintT("SESSION " \o ToJson(Session))
=============================================================================
