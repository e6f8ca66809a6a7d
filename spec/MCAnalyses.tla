----------------------------- MODULE MCAnalyses -----------------------------
(* Exhaustive check of the analyses: every dataset of T steps of up to two    *)
(* particles from a small set of records is loaded and then consumed step by  *)
(* step by the analyses of one property.  What they have accumulated has to   *)
(* satisfy the definitions, stated here over sets of samples.  With EMIT set  *)
(* every dataset is printed as a session for the implementation.              *)
EXTENDS Analyses, Json, IOUtils, FiniteSetsExt
CONSTANTS Prop, T, Wide

VARIABLES g, steps, n, acc
vars == <<g, steps, n, acc>>

CartG == [kind |-> "cart", cells |-> <<2, 1, 1>>, lim |-> << <<0, 4>>, <<0, 2>>, <<0, 2>> >>]
CylG == [kind |-> "cyl", cells |-> <<1, 2, 1>>, lim |-> << <<-3, 3>>, <<-3, 3>>, <<0, 2>> >>]
\* first cell, second cell, outside, undefined
Place(k) == IF g.kind = "cart" THEN << <<1, 1, 1>>, <<3, 1, 2>>, <<5, 1, 1>>, <<UNDEF, 1, 1>> >>[k]
            ELSE << <<0, -2, 1>>, <<0, 2, 2>>, <<3, 3, 1>>, <<1, UNDEF, 1>> >>[k]

V == << <<0, 0, 0>>, <<3, 4, 0>>, <<-1, 0, 0>>, <<3, UNDEF, 4>> >>
Q(k, at, v, r) == [p |-> Place(at), v |-> V[v], r |-> r, c |-> 0, d |-> 1, id |-> k, ty |-> k]
\* positions matter for the analyses of trajectories, velocities for the others
Paths == Prop \in {"C13", "C14", "C15", "C16", "C09"}
Records(k) ==
  IF Paths THEN {Q(k, at, 2, 1) : at \in 1..4} \cup {Q(k, 1, 2, 2)} \cup (IF Wide THEN {Q(k, at, 2, 2) : at \in 2..4} ELSE {})
  ELSE {Q(k, 1, v, 1) : v \in 1..4} \cup {Q(k, 2, 2, 1), Q(k, 2, 3, 1), Q(k, 3, 2, 1), Q(k, 4, 2, 1), Q(k, 1, 3, 2)}
       \cup (IF Wide THEN {Q(k, 2, v, r) : v \in 1..4, r \in 1..2} ELSE {})
Rows == {<<a, b>> : a \in Records(1), b \in Records(2)} \cup {<<a>> : a \in Records(1)} \cup {<<>>}

Sel(a, b) == [radius |-> <<1>>, clouds |-> <<-1>>, density |-> <<-1>>, ids |-> <<0>>, time |-> <<a, b>>]
Everything == [default |-> 1]
All == Sel(-1, 99)
DS == [steps |-> steps, dims |-> << <<-50, 50>>, <<-50, 50>>, <<-50, 50>> >>, vmag |-> <<0, 3, 10>>]

Op(name, sel) == [op |-> name, g |-> g, sel |-> sel, dirty |-> 0]
With(f, h) == h @@ f
OpList ==
  CASE Prop = "C07" -> << With(Op("velocity", All), [mode |-> "absolute", vmin |-> -100, vmax |-> 100]),
                          With(Op("velocity", Everything), [mode |-> "x", vmin |-> -1, vmax |-> 0]),
                          With(Op("velocity", All), [mode |-> "xy", vmin |-> 1, vmax |-> 5]) >>
    [] Prop = "C08" -> << Op("vector", All), Op("vector", Everything) >>
    [] Prop = "C09" -> << Op("number", All), Op("number", Everything), Op("number", Sel(1, 99)) >>
    [] Prop = "C10" -> << With(Op("histogram", All), [prop |-> "velocity", vmax |-> 5, bins |-> 5]),
                          With(Op("histogram", Everything), [prop |-> "velocity", vmax |-> 0, bins |-> 2]) >>
    [] Prop = "C11" -> << With(Op("occupancy", All), [vmin |-> 0]), With(Op("occupancy", Everything), [vmin |-> 1]) >>
    [] Prop = "C12" -> << With(Op("gtemp", All), [mode |-> "x"]), With(Op("gtemp", Everything), [mode |-> "xyz"]) >>
    [] Prop = "C13" -> << With(Op("dispersion", All), [lag |-> 0]), With(Op("dispersion", Everything), [lag |-> 2]) >>
    [] Prop = "C14" -> << With(Op("msdfield", All), [lag |-> 2]), With(Op("msdfield", Everything), [lag |-> 0]) >>
    [] Prop = "C15" -> << With(Op("lacey", All), [ta |-> 1, tb |-> 2, thr |-> 0]), With(Op("lacey", Everything), [ta |-> 2, tb |-> 1, thr |-> 2]) >>
    [] Prop = "C16" -> << With(Op("concentration", All), [ta |-> 1, tb |-> 2]), With(Op("concentration", Everything), [ta |-> 2, tb |-> 1]) >>
NOps == Len(OpList)

Init ==
  /\ g \in {CartG, CylG} /\ steps = <<>> /\ n = 0 /\ acc = <<>>
Load ==
  /\ n = 0 /\ Len(steps) < T
  /\ \E row \in Rows : steps' = Append(steps, [t |-> 2 * Len(steps), parts |-> row])
  /\ UNCHANGED <<g, n, acc>>
Call == n = 0 /\ Len(steps) = T /\ n' = 1 /\ acc' = [k \in 1..NOps |-> Begin(OpList[k], DS)] /\ UNCHANGED <<g, steps>>
Step == n \in 1..T /\ n' = n + 1 /\ UNCHANGED <<g, steps>>
        /\ acc' = [k \in 1..NOps |-> IF StepSelected(OpList[k], steps[n]) THEN Consume(OpList[k], DS, acc[k], n)
                                     ELSE IF OpList[k].op = "lacey" THEN Consume(OpList[k], DS, acc[k], n) ELSE acc[k]]
Next == Load \/ Call \/ Step
Done == n = T + 1

-----------------------------------------------------------------------------
\* samples (step, particle) that take part in analysis k
Samples(k) ==
  {s \in (1..T) \X (1..2) :
     /\ s[2] <= Len(steps[s[1]].parts)
     /\ StepSelected(OpList[k], steps[s[1]]) /\ PartSelected(OpList[k], steps[s[1]].parts[s[2]])}
At(s) == steps[s[1]].parts[s[2]]
In(k, c) == {s \in Samples(k) : CellNo(g, At(s).p) = c}
RSumSet(S, W(_)) == FoldSet(LAMBDA s, a : RAdd(W(s), a), RZero, S)
RMeanSet(S, W(_)) == RDiv(RSumSet(S, W), R(Cardinality(S)))
Cells == 1..NCells(g)
F(k) == FieldOf(OpList[k], acc[k])

Velocity(k) ==
  LET o == OpList[k]
      m(s) == Measure(o.mode, At(s).v)
      here(c) == {s \in In(k, c) : m(s) # UNDEF /\ m(s) >= o.vmin /\ m(s) <= o.vmax}
  IN \A c \in Cells :
       /\ F(k).val[c] = RMeanSet(here(c), LAMBDA s : R(m(s))) /\ F(k).wt[c] = R(Cardinality(here(c)))
       /\ here(c) # {} => RLe(R(o.vmin), F(k).val[c]) /\ RLe(F(k).val[c], R(o.vmax))
Vector(k) ==
  LET here(c) == {s \in In(k, c) : DefinedV(At(s).v)}
      f == VectorOf(OpList[k], acc[k])
  IN \A c \in Cells, a \in 1..3 :
       /\ f[a].wt[c] = R(Cardinality(here(c)))
       /\ f[a].val[c] = RMeanSet(here(c), LAMBDA s : GridVelocity(g, At(s).p, At(s).v)[a])
\* the components of one velocity carry its whole speed: vr^2 + (r w)^2 + vz^2 = v^2
Energy(k) ==
  \A s \in Samples(k) :
    (CellNo(g, At(s).p) # 0 /\ DefinedV(At(s).v)) =>
      LET w == GridVelocity(g, At(s).p, At(s).v)
          r2 == IF g.kind = "cyl" THEN Norm(CylX(g, At(s).p) * CylX(g, At(s).p) + CylY(g, At(s).p) * CylY(g, At(s).p), 4) ELSE ROne
      IN RAdd(RAdd(RMul(w[1], w[1]), RMul(r2, RMul(w[2], w[2]))), RMul(w[3], w[3])) = R(SqSum(At(s).v, {1, 2, 3}))
Number(k) ==
  /\ \A c \in Cells : F(k).val[c] = R(Cardinality(In(k, c))) /\ F(k).wt[c] = F(k).val[c]
  /\ RSum(F(k).val) = R(Cardinality({s \in Samples(k) : Inside(g, At(s).p)}))
Histogram(k) ==
  LET o == OpList[k]
      fine(s) == Inside(g, At(s).p) /\ DefinedV(At(s).v)
      top == HistTop(o, DS)
      width == top \div o.bins
      inbin(s, b) == LET x == Speed(At(s).v) IN x >= (b - 1) * width /\ (x < b * width \/ (b = o.bins /\ x = top))
  IN \A b \in 1..o.bins : acc[k][b] = Cardinality({s \in Samples(k) : fine(s) /\ inbin(s, b)})
Occupancy(k) ==
  LET o == OpList[k]
      moving == {s \in Samples(k) : /\ s[1] < T /\ Inside(g, At(s).p) /\ s[2] <= Len(steps[s[1] + 1].parts)
                                    /\ (DefinedV(At(s).v) => Speed(At(s).v) >= o.vmin)}
      leaving == {s \in moving : ~Inside(g, steps[s[1] + 1].parts[s[2]].p)}
      f == F(k)
  IN /\ \A c \in Cells : moving # {} => RLe(RZero, f.val[c]) /\ RLe(f.val[c], ROne)
     \* the time of all pairs is shared out, apart from those ending outside a Cartesian grid
     /\ moving # {} => RSum(f.val) = IF g.kind = "cyl" THEN ROne
                                     ELSE Norm(Cardinality(moving) - Cardinality(leaving), Cardinality(moving))
     /\ moving = {} => \A c \in Cells : IsNaN(f.val[c])
Variances(k) ==
  LET o == OpList[k]
      here(c) == {s \in In(k, c) : DefinedV(At(s).v)}
      v(c, a) == LET m == RMeanSet(here(c), LAMBDA s : R(At(s).v[a]))
                 IN RMeanSet(here(c), LAMBDA s : LET d == RSub(R(At(s).v[a]), m) IN RMul(d, d))
  IN \A c \in Cells :
       /\ F(k).val[c] = IF o.mode = "x" THEN v(c, 1) ELSE RDiv(RAdd(RAdd(v(c, 1), v(c, 2)), v(c, 3)), R(3))
       /\ here(c) # {} => RLe(RZero, F(k).val[c])
       /\ (here(c) # {} /\ \A s, u \in here(c) : At(s).v = At(u).v) => F(k).val[c] = RZero
Dispersion(k) ==
  LET o == OpList[k]
      later(s) == s[1] + (o.lag \div 2)                      \* steps are two apart
      here(c) == {s \in In(k, c) : later(s) <= T /\ s[2] <= Len(steps[later(s)].parts) /\ Defined(steps[later(s)].parts[s[2]].p)}
      z(s) == steps[later(s)].parts[s[2]].p
      v(c, a) == LET m == RMeanSet(here(c), LAMBDA s : R(z(s)[a]))
                 IN RDiv(RSumSet(here(c), LAMBDA s : LET d == RSub(R(z(s)[a]), m) IN RMul(d, d)), R(Cardinality(here(c)) - 1))
  IN \A c \in Cells :
       IF Cardinality(here(c)) > 1 THEN F(k).val[c] = RAdd(RAdd(v(c, 1), v(c, 2)), v(c, 3)) /\ F(k).wt[c] = ROne
       ELSE F(k).val[c] = RZero /\ F(k).wt[c] = RZero
Displacement(k) ==
  LET o == OpList[k]
      later(s) == s[1] + (o.lag \div 2)
      here(c) == {s \in In(k, c) : later(s) <= T /\ s[2] <= Len(steps[later(s)].parts) /\ Defined(steps[later(s)].parts[s[2]].p)}
      z(s) == steps[later(s)].parts[s[2]].p
  IN \A c \in Cells :
       /\ F(k).wt[c] = R(Cardinality(here(c)))
       /\ F(k).val[c] = IF here(c) = {} THEN RZero ELSE RMeanSet(here(c), LAMBDA s : R(Dist2(At(s).p, z(s))))
       /\ o.lag = 0 => F(k).val[c] = RZero
       /\ RLe(RZero, F(k).val[c])
LaceyProperties(k) ==
  LET o == OpList[k] IN
  /\ Len(acc[k].index) = T /\ Len(acc[k].times) = T
  /\ \A m \in 1..T :
       \* the index does not depend on which type is called A
       /\ StepSelected(o, steps[m]) => acc[k].index[m] = Lacey([o EXCEPT !.ta = o.tb, !.tb = o.ta], DS, m)
       /\ ~StepSelected(o, steps[m]) => acc[k].index[m] = RZero
Concentration(k) ==
  LET o == OpList[k] IN
  \A c \in Cells :
    LET a == Cardinality({s \in In(k, c) : At(s).ty = o.ta}) b == Cardinality({s \in In(k, c) : At(s).ty = o.tb})
    IN F(k).val[c] = Norm(a, a + b) /\ F(k).wt[c] = R(a + b)

Definitions ==
  Done => \A k \in 1..NOps :
    CASE Prop = "C07" -> Velocity(k) [] Prop = "C08" -> Vector(k) /\ Energy(k) [] Prop = "C09" -> Number(k)
      [] Prop = "C10" -> Histogram(k) [] Prop = "C11" -> Occupancy(k) [] Prop = "C12" -> Variances(k)
      [] Prop = "C13" -> Dispersion(k) [] Prop = "C14" -> Displacement(k) [] Prop = "C15" -> LaceyProperties(k)
      [] Prop = "C16" -> Concentration(k)

\* the samples of two windows add up to those of both (C21)
Plus(a, b) == [st |-> [s \in DOMAIN a.st |-> [val |-> [c \in Cells |-> RAdd(a.st[s].val[c], b.st[s].val[c])],
                                            wt |-> [c \in Cells |-> RAdd(a.st[s].wt[c], b.st[s].wt[c])]]],
               total |-> RAdd(a.total, b.total)]
Upto2(o) ==
  FoldLeft(LAMBDA a, m : IF StepSelected(o, steps[m]) THEN Consume(o, DS, a, m) ELSE a, Begin(o, DS), [m \in 1..T |-> m])
Windows ==
  (Done /\ OpList[1].op \in FieldOps) =>
    LET o == OpList[1]
        part(x, y) == Upto2([o EXCEPT !.sel = Sel(x, y)])
    IN acc[1] = Plus(part(-1, 1), part(2, 99))
\* particles in another order give the same result (C21)
Swapped == [DS EXCEPT !.steps = [m \in 1..T |-> [t |-> steps[m].t, parts |-> <<steps[m].parts[2], steps[m].parts[1]>>]]]
Order ==
  (Done /\ \A m \in 1..T : Len(steps[m].parts) = 2) =>
    \A k \in 1..NOps :
      FoldLeft(LAMBDA a, m : IF OpList[k].op = "lacey" \/ StepSelected(OpList[k], steps[m]) THEN Consume(OpList[k], Swapped, a, m) ELSE a,
               Begin(OpList[k], DS), [m \in 1..T |-> m]) = acc[k]

-----------------------------------------------------------------------------
Session == [kind |-> "analysis", u |-> "1", uv |-> "1", ut |-> "1", off |-> <<"0", "0", "0">>, ds |-> DS, ops |-> OpList]
Emit == (Done /\ "EMIT" \in DOMAIN IOEnv) => PrintT("SESSION " \o ToJson(Session))
=============================================================================
