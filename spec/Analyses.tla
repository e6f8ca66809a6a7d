------------------------------ MODULE Analyses ------------------------------
(* The analyses as streaming machines.  A dataset ds has steps[n] = [t, parts]*)
(* with parts[k] = [p, v, r, c, d, id, ty], dims and vmag = <<min,mean,max>>. *)
(* Every analysis o starts from Begin(o), consumes the time steps in order    *)
(* (Consume) and turns what it has accumulated into its result (Finish).      *)
EXTENDS GridStore, Selector, TimeLookup, SequencesExt

Selects(o) == "sel" \in DOMAIN o /\ ~("default" \in DOMAIN o.sel)
StepSelected(o, s) == ~Selects(o) \/ TimeOK(o.sel, s.t)
PartSelected(o, q) == ~Selects(o) \/ ParticleOK(o.sel, q)

Times(ds) == [n \in 1..Len(ds.steps) |-> ds.steps[n].t]

DefinedV(v) == v[1] # UNDEF /\ v[2] # UNDEF /\ v[3] # UNDEF

\* the sessions contain only speeds whose squares are squares
ISqrt(n) == CHOOSE r \in 0..700 : r * r = n
SqSum(v, axes) ==
  LET q(a) == IF a \in axes THEN v[a] * v[a] ELSE 0 IN q(1) + q(2) + q(3)
Speed(v) == ISqrt(SqSum(v, {1, 2, 3}))

AxesOf(mode) ==
  CASE mode = "absolute" -> {1, 2, 3} [] mode = "xy" -> {1, 2} [] mode = "xz" -> {1, 3} [] mode = "yz" -> {2, 3}
    [] mode \in {"x", "r"} -> {1} [] mode \in {"y", "theta"} -> {2} [] mode = "z" -> {3}
VelocityModes == {"absolute", "x", "y", "z", "r", "theta", "xy", "xz", "yz"}
\* the requested measure, UNDEF if one of the components it needs is undefined
Measure(mode, v) ==
  LET ax == AxesOf(mode)
  IN IF \E a \in ax : v[a] = UNDEF THEN UNDEF
     ELSE IF mode \in {"x", "r"} THEN v[1] ELSE IF mode \in {"y", "theta"} THEN v[2] ELSE IF mode = "z" THEN v[3]
     ELSE ISqrt(SqSum(v, ax))

\* velocity in the coordinates of the grid; for a cylinder relative to its axis
GridVelocity(g, p, v) ==
  IF g.kind = "cart" THEN <<R(v[1]), R(v[2]), R(v[3])>>
  ELSE LET x == CylX(g, p) y == CylY(g, p) rr == x * x + y * y
       IN << Norm(x * v[1] + y * v[2], ISqrt(rr)), Norm(2 * (x * v[2] - y * v[1]), rr), R(v[3]) >>

Dist2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]) + (p[3] - q[3]) * (p[3] - q[3])

-----------------------------------------------------------------------------
(* What a selected particle k of step n adds: a sequence of [s, c, v, w]: value v    *)
(* and weight w to cell c of store s; c = 0 adds v to the running total.      *)
None == <<>>
Add(s, c, v, w) == [s |-> s, c |-> c, v |-> v, w |-> w]

\* time step at the lag from step n, 0 if that is not recorded
FutureStep(o, ds, n) == Later(Times(ds), ds.steps[n].t + o.lag)
\* position of particle k there, or an undefined one
Future(o, ds, n, k) ==
  LET m == FutureStep(o, ds, n)
  IN IF m = 0 THEN <<UNDEF, UNDEF, UNDEF>>
     ELSE IF k > Len(ds.steps[m].parts) THEN <<UNDEF, UNDEF, UNDEF>>
     ELSE ds.steps[m].parts[k].p

Contribution(o, ds, n, k) ==
  LET g == o.g
      q == ds.steps[n].parts[k]
      c == CellNo(g, q.p)
  IN CASE o.op = "velocity" ->
            LET m == Measure(o.mode, q.v)
            IN IF c = 0 \/ m = UNDEF \/ m < o.vmin \/ m > o.vmax THEN None ELSE << Add(1, c, R(m), ROne) >>
       [] o.op = "vector" ->
            IF c = 0 \/ ~DefinedV(q.v) THEN None
            ELSE LET w == GridVelocity(g, q.p, q.v) IN << Add(1, c, w[1], ROne), Add(2, c, w[2], ROne), Add(3, c, w[3], ROne) >>
       [] o.op = "number" -> IF c = 0 THEN None ELSE << Add(1, c, ROne, ROne) >>
       [] o.op \in {"occupancy", "homogeneity"} ->
            IF n = Len(ds.steps) \/ c = 0 THEN None
            ELSE IF DefinedV(q.v) /\ SqSum(q.v, {1, 2, 3}) < o.vmin * o.vmin THEN None
            ELSE IF k > Len(ds.steps[n + 1].parts) THEN None
            ELSE LET dt == ds.steps[n + 1].t - ds.steps[n].t
                     e == CellNo(g, ds.steps[n + 1].parts[k].p)
                     total == Add(0, 0, R(dt), RZero)
                 IN IF g.kind = "cyl" THEN << total, Add(1, c, R(dt), ROne) >>
                    ELSE IF e = 0 THEN << total >>
                    ELSE << total, Add(1, c, Norm(dt, 2), Half), Add(1, e, Norm(dt, 2), Half) >>
       [] o.op = "gtemp" ->
            IF c = 0 \/ ~DefinedV(q.v) THEN None
            ELSE << Add(1, c, R(q.v[1]), ROne), Add(2, c, R(q.v[2]), ROne), Add(3, c, R(q.v[3]), ROne),
                    Add(4, c, R(q.v[1] * q.v[1]), ROne), Add(5, c, R(q.v[2] * q.v[2]), ROne), Add(6, c, R(q.v[3] * q.v[3]), ROne) >>
       [] o.op = "dispersion" ->
            LET f == Future(o, ds, n, k)
            IN IF c = 0 \/ ~Defined(f) THEN None
               ELSE << Add(1, c, R(f[1]), ROne), Add(2, c, R(f[2]), ROne), Add(3, c, R(f[3]), ROne),
                       Add(4, c, R(f[1] * f[1]), ROne), Add(5, c, R(f[2] * f[2]), ROne), Add(6, c, R(f[3] * f[3]), ROne) >>
       [] o.op = "msdfield" ->
            LET f == Future(o, ds, n, k)
            IN IF c = 0 \/ ~Defined(f) THEN None ELSE << Add(1, c, R(Dist2(q.p, f)), ROne) >>
       [] o.op = "concentration" ->
            IF c = 0 THEN None
            ELSE IF q.ty = o.ta THEN << Add(1, c, ROne, ROne) >>
            ELSE IF q.ty = o.tb THEN << Add(2, c, ROne, ROne) >>
            ELSE None

FieldOps == {"velocity", "vector", "number", "occupancy", "homogeneity", "gtemp", "dispersion", "msdfield", "concentration"}
StoresOf(o) ==
  CASE o.op \in {"gtemp", "dispersion"} -> 6 [] o.op = "vector" -> 3 [] o.op = "concentration" -> 2 [] OTHER -> 1

Absorb(acc, a) ==
  IF a.c = 0 THEN [acc EXCEPT !.total = RAdd(@, a.v)]
  ELSE [acc EXCEPT !.st[a.s] = AddAt(@, a.c, a.v, a.w)]

-----------------------------------------------------------------------------
(* Lacey index of one time step *)
Lacey(o, ds, n) ==
  LET s == ds.steps[n]
      g == o.g
      N == NCells(g)
      ks == {k \in 1..Len(s.parts) : PartSelected(o, s.parts[k])}
      cnt(ty) == Cardinality({k \in ks : s.parts[k].ty = ty})
      at == [k \in ks |-> CellNo(g, s.parts[k].p)]
      inCell(c, ty) == Cardinality({k \in ks : s.parts[k].ty = ty /\ at[k] = c})
      p == Norm(cnt(o.ta), cnt(o.ta) + cnt(o.tb))
      s0 == RMul(p, RSub(ROne, p))
      used == {c \in 1..N : LET m == inCell(c, o.ta) + inCell(c, o.tb) IN m >= 1 /\ m >= o.thr}
      dev(c) == LET d == RSub(Norm(inCell(c, o.ta), inCell(c, o.ta) + inCell(c, o.tb)), p) IN RMul(d, d)
      s2 == RDiv(RSumOver([c \in used |-> dev(c)], used), R(N - 1))
  IN RDiv(RSub(s0, s2), RSub(s0, RDiv(s0, R(N))))

-----------------------------------------------------------------------------
(* Histogram *)
HistTop(o, ds) == IF o.vmax = 0 THEN ds.vmag[3] ELSE o.vmax
\* bin (from 1) of a speed, 0 if it lies outside
HistBin(o, ds, v) ==
  LET lo == ds.vmag[1] hi == HistTop(o, ds) x == Speed(v)
  IN IF x < lo \/ x > hi THEN 0 ELSE Min2(((x - lo) * o.bins) \div (hi - lo), o.bins - 1) + 1
HistEdges(o, ds) ==
  LET lo == ds.vmag[1] hi == HistTop(o, ds)
  IN [k \in 1..(o.bins + 1) |-> Norm(lo * o.bins + (k - 1) * (hi - lo), o.bins)]

-----------------------------------------------------------------------------
(* Circulations: one automaton per place in the records.                      *)
MaxParts(ds) == CHOOSE m \in {Len(ds.steps[n].parts) : n \in 1..Len(ds.steps)} \cup {0} :
                  \A n \in 1..Len(ds.steps) : Len(ds.steps[n].parts) <= m
\* +1 above the boundary, -1 below, 0 on it or undefined
Side(x, b) == IF x = UNDEF THEN 0 ELSE Sgn(x - b)

\* one boundary: f = number of crossings of the current group, t = time of its first
Cross1(a, was, is, now) ==
  IF was * is # -1 THEN [a |-> a, done |-> <<>>]
  ELSE CASE a.f = 0 -> [a |-> [f |-> 1, t |-> now], done |-> <<>>]
         [] a.f = 1 -> [a |-> [a EXCEPT !.f = 2], done |-> <<>>]
         [] a.f = 2 -> [a |-> [a EXCEPT !.f = 0], done |-> <<now - a.t>>]

(* Two boundaries: home = +1/-1 the region (above the upper / below the lower *)
(* boundary) whose departures are counted, 0 before the first departure;      *)
(* away = the other region has been entered since; t = last departure.        *)
Depart(a, region, now) ==
  IF a.home = 0 THEN [a |-> [home |-> region, away |-> FALSE, t |-> now], done |-> <<>>]
  ELSE IF a.home # region THEN [a |-> a, done |-> <<>>]
  ELSE [a |-> [a EXCEPT !.away = FALSE, !.t = now], done |-> IF a.away THEN << <<a.t, now>> >> ELSE <<>>]
Enter(a, region) == IF a.home = -region THEN [a EXCEPT !.away = TRUE] ELSE a
\* a particle leaves its region before it enters the other one within the same step
Cross2(a, wasLo, isLo, wasHi, isHi, now) ==
  IF wasHi = 1 /\ isHi = -1 THEN                       \* down through the upper boundary
    LET d == Depart(a, 1, now) IN [d EXCEPT !.a = IF wasLo = 1 /\ isLo = -1 THEN Enter(@, -1) ELSE @]
  ELSE IF wasLo = 1 /\ isLo = -1 THEN [a |-> Enter(a, -1), done |-> <<>>]
  ELSE IF wasLo = -1 /\ isLo = 1 THEN                  \* up through the lower boundary
    LET d == Depart(a, -1, now) IN [d EXCEPT !.a = IF wasHi = -1 /\ isHi = 1 THEN Enter(@, 1) ELSE @]
  ELSE IF wasHi = -1 /\ isHi = 1 THEN [a |-> Enter(a, 1), done |-> <<>>]
  ELSE [a |-> a, done |-> <<>>]

Auto0(o) == IF o.op = "circ" THEN [f |-> 0, t |-> 0] ELSE [home |-> 0, away |-> FALSE, t |-> 0]

\* particle k at step n against the last selected step m
CircMove(o, ds, a, m, n, k) ==
  LET q == ds.steps[n].parts[k]
      w == ds.steps[m].parts[k]
      x == q.p[o.axis] y == w.p[o.axis] now == ds.steps[n].t
  IN IF o.op = "circ" THEN Cross1(a, Side(y, o.b), Side(x, o.b), now)
     ELSE Cross2(a, Side(y, o.b), Side(x, o.b), Side(y, o.b2), Side(x, o.b2), now)

CircConsume(o, ds, acc, n) ==
  LET new == ds.steps[n].parts
      moves(k) ==
        /\ acc.last # 0
        /\ k <= Len(ds.steps[acc.last].parts)
        /\ PartSelected(o, new[k])
        /\ new[k].id = ds.steps[acc.last].parts[k].id
      moved == [k \in 1..Len(new) |-> IF moves(k) THEN CircMove(o, ds, acc.auto[k], acc.last, n, k)
                                      ELSE [a |-> acc.auto[k], done |-> <<>>]]
  IN [last |-> n,
      auto |-> [k \in DOMAIN acc.auto |-> IF k <= Len(new) THEN moved[k].a ELSE acc.auto[k]],
      done |-> acc.done \o FlattenSeq([k \in 1..Len(new) |-> moved[k].done])]

-----------------------------------------------------------------------------
(* The machine *)
Begin(o, ds) ==
  CASE o.op \in FieldOps -> [st |-> [s \in 1..StoresOf(o) |-> EmptyStore(o.g)], total |-> RZero]
    [] o.op = "histogram" -> [k \in 1..o.bins |-> 0]
    [] o.op = "showcase" -> [sum |-> 0, n |-> 0]
    [] o.op = "lacey" -> [times |-> <<>>, index |-> <<>>]
    [] o.op = "extract" -> <<>>
    [] o.op \in {"circ", "circ2"} -> [last |-> 0, auto |-> [k \in 1..MaxParts(ds) |-> Auto0(o)], done |-> <<>>]
    [] o.op \in {"meanvel", "msd"} -> 0

Consume(o, ds, acc, n) ==
  LET s == ds.steps[n]
      idx == [k \in 1..Len(s.parts) |-> k]
  IN CASE o.op = "lacey" ->
            [times |-> Append(acc.times, IF StepSelected(o, s) THEN R(s.t) ELSE RZero),
             index |-> Append(acc.index, IF StepSelected(o, s) THEN Lacey(o, ds, n) ELSE RZero)]
       [] o.op = "extract" ->
            IF n - 1 < o.from \/ n - 1 >= o.to THEN acc
            ELSE LET q == s.parts[o.particle + 1]
                     num(x) == IF x = UNDEF THEN NaN ELSE R(x)
                 IN Append(acc, << R(s.t), num(q.p[1]), num(q.p[2]), num(q.p[3]), num(q.v[1]), num(q.v[2]), num(q.v[3]) >>)
       [] ~StepSelected(o, s) -> acc
       [] o.op \in FieldOps ->
            FoldLeft(LAMBDA a, k : IF PartSelected(o, s.parts[k]) THEN FoldLeft(Absorb, a, Contribution(o, ds, n, k)) ELSE a, acc, idx)
       [] o.op = "histogram" ->
            FoldLeft(LAMBDA a, k :
                       LET q == s.parts[k]
                       IN IF PartSelected(o, q) /\ CellNo(o.g, q.p) # 0 /\ DefinedV(q.v)
                            THEN LET b == HistBin(o, ds, q.v) IN IF b = 0 THEN a ELSE [a EXCEPT ![b] = @ + 1]
                          ELSE a, acc, idx)
       [] o.op = "showcase" ->
            FoldLeft(LAMBDA a, k : IF DefinedV(s.parts[k].v) THEN [sum |-> a.sum + Speed(s.parts[k].v), n |-> a.n + 1] ELSE a, acc, idx)
       [] o.op \in {"circ", "circ2"} -> CircConsume(o, ds, acc, n)
       [] o.op \in {"meanvel", "msd"} -> acc

-----------------------------------------------------------------------------
(* Results *)
PerCell(g, Op(_)) == [c \in 1..NCells(g) |-> Op(c)]

\* population variance of component a from the stores of sums and squared sums
Variance(acc, a, c) ==
  LET n == acc.st[a].wt[c]
      m == RDiv(acc.st[a].val[c], n)
  IN RSub(RDiv(acc.st[a + 3].val[c], n), RMul(m, m))

FieldOf(o, acc) ==
  CASE o.op \in {"velocity"} -> [val |-> PerCell(o.g, LAMBDA c : RDiv(acc.st[1].val[c], acc.st[1].wt[c])), wt |-> acc.st[1].wt]
    [] o.op = "number" -> acc.st[1]
    [] o.op \in {"occupancy", "homogeneity"} -> [val |-> PerCell(o.g, LAMBDA c : RDiv(acc.st[1].val[c], acc.total)), wt |-> acc.st[1].wt]
    [] o.op = "gtemp" ->
         [val |-> PerCell(o.g, LAMBDA c :
                    IF o.mode = "xyz" THEN RDiv(RAdd(RAdd(Variance(acc, 1, c), Variance(acc, 2, c)), Variance(acc, 3, c)), R(3))
                    ELSE Variance(acc, IF o.mode = "x" THEN 1 ELSE IF o.mode = "y" THEN 2 ELSE 3, c)),
          wt |-> acc.st[1].wt]
    [] o.op = "dispersion" ->
         LET many(c) == RGt(acc.st[1].wt[c], ROne)
             n(c) == acc.st[1].wt[c]
         IN [val |-> PerCell(o.g, LAMBDA c :
                       IF ~many(c) THEN RZero
                       ELSE RMul(RAdd(RAdd(Variance(acc, 1, c), Variance(acc, 2, c)), Variance(acc, 3, c)),
                                 RDiv(n(c), RSub(n(c), ROne)))),
             wt |-> PerCell(o.g, LAMBDA c : IF many(c) THEN ROne ELSE RZero)]
    [] o.op = "msdfield" ->
         [val |-> PerCell(o.g, LAMBDA c : IF acc.st[1].wt[c] = RZero THEN RZero ELSE RDiv(acc.st[1].val[c], acc.st[1].wt[c])),
          wt |-> acc.st[1].wt]
    [] o.op = "concentration" ->
         LET n(c) == RAdd(acc.st[1].wt[c], acc.st[2].wt[c])
         IN [val |-> PerCell(o.g, LAMBDA c : RDiv(acc.st[1].val[c], n(c))), wt |-> PerCell(o.g, n)]

VectorOf(o, acc) ==
  [a \in 1..3 |-> [val |-> PerCell(o.g, LAMBDA c : RDiv(acc.st[a].val[c], acc.st[a].wt[c])), wt |-> acc.st[a].wt]]

\* mean over the cells that hold a dispersion
Efficiency(f) == RDiv(RSum([c \in DOMAIN f.val |-> RMul(f.wt[c], f.val[c])]), RSum(f.wt))

\* squared homogeneity index of an occupancy field
HomogeneitySq(g, f) ==
  LET h == CollapseTwo(g, f, 1, 2)
      some == SelectSeq(h, LAMBDA x : ~IsNaN(x))
      m == RDiv(RSum(some), R(Len(h)))
  IN RDiv(RSum([k \in 1..Len(some) |-> LET d == RSub(some[k], m) IN RMul(d, d)]), R(Len(h)))

\* the whole machine at once, for the points of the displacement curve
Upto(o, ds, n) == FoldLeft(LAMBDA acc, k : Consume(o, ds, acc, k), Begin(o, ds), [k \in 1..n |-> k])

MsdLags(o) == [k \in 1..o.steps |-> IF o.steps = 1 THEN R(o.lag) ELSE Norm(o.lag * (o.steps - 1) + (k - 1) * (o.lag2 - o.lag), o.steps - 1)]
MsdAt(o, ds, lag) ==
  LET f == Upto([op |-> "msdfield", g |-> o.g, sel |-> o.sel, lag |-> lag], ds, Len(ds.steps)).st[1]
  IN RDiv(RSum(f.val), RSum(f.wt))

\* calls that are refused
Legal(o, ds) ==
  CASE o.op = "velocity" -> o.mode \in VelocityModes
    [] o.op = "gtemp" -> o.mode \in {"x", "y", "z", "xyz"}
    [] o.op = "histogram" -> o.prop = "velocity"
    [] o.op = "extract" -> o.from < Len(ds.steps) /\ o.to <= Len(ds.steps)
    [] o.op = "circ" -> InRange(o.b, ds.dims[o.axis][1], ds.dims[o.axis][2])
    [] o.op = "circ2" -> InRange(o.b, ds.dims[o.axis][1], ds.dims[o.axis][2]) /\ InRange(o.b2, ds.dims[o.axis][1], ds.dims[o.axis][2])
    [] OTHER -> TRUE
=============================================================================
