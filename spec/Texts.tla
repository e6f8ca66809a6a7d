-------------------------------- MODULE Texts --------------------------------
(* What data and grids print about themselves (C42): the numbers of a text by *)
(* what they are called in it.  A printed number is given with its square.    *)
EXTENDS Interface

\* data as a string
DataText(ds) ==
  LET axis(d) == LET l == ds.dims[d] IN <<R(l[1]), R(l[2]), R(l[2] - l[1])>>
  IN [x |-> axis(1), y |-> axis(2), z |-> axis(3),
      time |-> <<R(ds.steps[Len(ds.steps)].t)>>, particles |-> <<R(MaxParts(ds))>>, steps |-> <<R(Len(ds.steps))>>,
      vmin |-> <<R(ds.vmag[1])>>, vmean |-> <<R(ds.vmag[2])>>, vmax |-> <<R(ds.vmag[3])>>]
\* what data.stats() prints
DataStats(ds) ==
  LET corner(k) == [d \in 1..3 |-> R(ds.dims[d][k])]
      all == DataText(ds)
  IN [dims |-> corner(1) \o corner(2), time |-> all.time, particles |-> all.particles,
      vmin |-> all.vmin, vmean |-> all.vmean, vmax |-> all.vmax]

\* a cylinder is told by radius, angle and height; angles are judged elsewhere (C02)
Extent(g) ==
  LET axis(d) == <<R(g.lim[d][1]), R(g.lim[d][2])>>
      cells == [cells |-> [d \in 1..3 |-> R(g.cells[d])], zlim |-> axis(3)]
  IN IF g.kind = "cyl" THEN cells @@ [xlim |-> <<RZero, Norm(CylR(g), 2)>>] ELSE cells @@ [xlim |-> axis(1), ylim |-> axis(2)]

-----------------------------------------------------------------------------
(* The values of a field: empty cells of an average have none and count not.  *)
Values(st) == SelectSeq(st.val, LAMBDA v : ~IsNaN(v))
RECURSIVE Least(_, _), Most(_, _)
Least(s, k) == IF k = 1 THEN s[1] ELSE LET m == Least(s, k - 1) IN IF RLt(s[k], m) THEN s[k] ELSE m
Most(s, k) == IF k = 1 THEN s[1] ELSE LET m == Most(s, k - 1) IN IF RLt(m, s[k]) THEN s[k] ELSE m
MinOf(st) == LET s == Values(st) IN IF s = <<>> THEN NaN ELSE Least(s, Len(s))
MaxOf(st) == LET s == Values(st) IN IF s = <<>> THEN NaN ELSE Most(s, Len(s))

\* the least common denominator, 0 if it is above 12 or a value is not finite
RECURSIVE Denominator(_, _)
Denominator(s, k) ==
  IF k = 0 THEN 1
  ELSE LET l == Denominator(s, k - 1)
       IN IF l = 0 \/ s[k][2] <= 0 THEN 0
          ELSE LET m == (l \div GCD(l, s[k][2])) * s[k][2] IN IF m > 12 THEN 0 ELSE m
RECURSIVE Total(_, _)
Total(s, k) == IF k = 0 THEN 0 ELSE s[k] + Total(s, k - 1)
\* mean and variance, in whole numbers; exact for fields of this size only
Moments(st) ==
  LET s == Values(st) n == Len(s) l == Denominator(s, n)
      w == [k \in 1..n |-> s[k][1] * (l \div s[k][2])]
  IN IF n = 0 THEN [known |-> TRUE, mean |-> NaN, var |-> NaN]
     ELSE IF l = 0 \/ n * l > 500 THEN [known |-> FALSE]
     ELSE IF \E k \in 1..n : Abs(w[k]) * n > 20000 THEN [known |-> FALSE]
     ELSE LET t == Total(w, n) q == Total([k \in 1..n |-> w[k] * w[k]], n)
          IN [known |-> TRUE, mean |-> Norm(t, n * l), var |-> Norm(n * q - t * t, n * n * l * l)]

-----------------------------------------------------------------------------
\* printed numbers: pairs of a number and its square
Shows(e, l) == Len(l) = Len(e) /\ \A k \in 1..Len(e) : Same(e[k], l[k][1])
ShowsAll(e, l) == \A x \in DOMAIN e : x \in DOMAIN l /\ Shows(e[x], l[x])
FieldText(st, l) ==
  LET m == Moments(st)
  IN /\ {"mean", "std", "min", "max"} \subseteq DOMAIN l
     /\ Shows(<<MinOf(st)>>, l.min) /\ Shows(<<MaxOf(st)>>, l.max)
     /\ Len(l.mean) = 1 /\ Len(l.std) = 1
     /\ m.known => /\ Same(m.mean, l.mean[1][1])
                   /\ Same(m.var, l.std[1][2]) /\ (IsNaN(l.std[1][1]) \/ l.std[1][1][1] >= 0)
TextOK(e, l) ==
  CASE e.of = "data" -> ShowsAll(DataText(e.ds), l)
    [] e.of = "stats" -> ShowsAll(DataStats(e.ds), l)
    [] e.of = "vec" -> ShowsAll(Extent(e.g), l)
    [] e.of = "grid" -> ShowsAll(Extent(e.g), l) /\ FieldText(e.st, l)
=============================================================================
