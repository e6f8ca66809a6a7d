-------------------------------- MODULE Plots --------------------------------
(* What the plots of a field show.  A plane of a grid g cut across axis x is  *)
(* spanned by the two other axes, the first drawn to the right and the second *)
(* upwards; its values are row-major sequences.  A plane field f is scalar    *)
(* ([vec |-> FALSE, z]) or has two components ([vec |-> TRUE, u, v]).         *)
(* Lengths need roots, so everything is stated about squares.                 *)
EXTENDS GridStore, Tolerance, Json

Colours == JsonDeserialize("colours.json")     \* 101 evenly spaced colours of each map
ScalingModes == {"min", "max", "minmax", "half_node", "full_node"}

RSq(r) == RMul(r, r)
RMin(s) == LET d == {k \in DOMAIN s : ~IsNaN(s[k])} IN IF d = {} THEN NaN ELSE s[CHOOSE k \in d : \A j \in d : ~RLt(s[j], s[k])]
RMax(s) == LET d == {k \in DOMAIN s : ~IsNaN(s[k])} IN IF d = {} THEN NaN ELSE s[CHOOSE k \in d : \A j \in d : ~RLt(s[k], s[j])]
AnyValue(s) == \E k \in DOMAIN s : ~IsNaN(s[k])

\* the squared length of a vector, or the value of a scalar
Norms2(f) == [k \in DOMAIN f.u |-> RAdd(RSq(f.u[k]), RSq(f.v[k]))]
Shown(f) == IF f.vec THEN Norms2(f) ELSE f.z

-----------------------------------------------------------------------------
(* Thousandths of a root, for the few places where lengths are subtracted.    *)
RECURSIVE FloorRoot(_, _, _)
FloorRoot(n, lo, hi) ==       \* lo*lo <= n < hi*hi
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF m <= n \div m THEN FloorRoot(n, m, hi) ELSE FloorRoot(n, lo, m)
Shrunk(r) == LET k == 1 + Max2(r[2] \div 2000, 0) IN <<r[1] \div k, Max2(r[2] \div k, 1)>>
Millionths(r) == LET q == Shrunk(r) IN (q[1] \div q[2]) * 1000000 + (((q[1] % q[2]) * 1000000) \div q[2])
RootThousandths(r) == FloorRoot(Millionths(r), 0, 46341)
Thousandths(r) == IF r[2] = -1 THEN r[1]
                  ELSE IF r[1] >= 0 THEN (r[1] \div r[2]) * 1000 + (((r[1] % r[2]) * 1000) \div r[2])
                  ELSE -(((-r[1]) \div r[2]) * 1000 + ((((-r[1]) % r[2]) * 1000) \div r[2]))

-----------------------------------------------------------------------------
(* Arrows: per cell the signs and squares of the two components.  A vector of *)
(* length zero has no direction: scaled to a length it vanishes.              *)
Spacing(g, d) == Norm(g.lim[d][2] - g.lim[d][1], g.cells[d])
Base(f) == [k \in DOMAIN f.u |-> [s |-> <<Sgn(f.u[k][1]), Sgn(f.v[k][1])>>, q |-> <<RSq(f.u[k]), RSq(f.v[k])>>]]
Stretch(b, fx, fy) == [b EXCEPT !.q = <<RMul(@[1], fx), RMul(@[2], fy)>>]
Len2(b) == RAdd(b.q[1], b.q[2])
Longest(bs) == RMax([k \in DOMAIN bs |-> Len2(bs[k])])
Quarter == <<1, 4>>

Scaled(bs, mode, lo, hi, dx, dy) ==
  LET each(F(_)) == [k \in DOMAIN bs |-> LET s == F(Len2(bs[k])) IN Stretch(bs[k], s, s)]
      node(r) == LET m == Longest(bs) IN [k \in DOMAIN bs |-> Stretch(bs[k], RDiv(RMul(r, RSq(dx)), m), RDiv(RMul(r, RSq(dy)), m))]
      atLeast(n2) == IF RLt(n2, RSq(lo)) THEN RDiv(RSq(lo), n2) ELSE ROne
      atMost(n2) == IF RGt(n2, RSq(hi)) THEN RDiv(RSq(hi), n2) ELSE ROne
  IN CASE mode = "none" -> bs
       [] mode = "min" -> each(atLeast)
       [] mode = "max" -> each(atMost)
       [] mode = "minmax" -> each(LAMBDA n2 : IF RGt(n2, RSq(hi)) THEN atMost(n2) ELSE atLeast(n2))
       [] mode = "half_node" -> node(Quarter)
       [] mode = "full_node" -> node(ROne)

\* unit vectors are half a cell long along the axes
Units(f, dx, dy) ==
  LET b == Base(f)
  IN [k \in DOMAIN b |-> LET n2 == Len2(b[k]) IN Stretch(b[k], RDiv(RMul(Quarter, RSq(dx)), n2), RDiv(RMul(Quarter, RSq(dy)), n2))]

Steps2(g, x) == <<Spacing(g, Rest(x)[1]), Spacing(g, Rest(x)[2])>>
\* distances of cell centres exist between two cells at least
NodesOK(g, x) == g.cells[Rest(x)[1]] > 1 /\ g.cells[Rest(x)[2]] > 1

NoFigure == [maps |-> <<>>, arrows |-> <<>>, marks |-> <<>>, lines |-> <<>>]
Map(type, g, x, f, cm) == [type |-> type, g |-> g, x |-> x, f |-> f, cm |-> cm, flip |-> FALSE]

Quiver(g, x, f, mode, lo, hi, cm) ==
  LET d == Steps2(g, x)
  IN [NoFigure EXCEPT !.arrows = <<[g |-> g, x |-> x, b |-> Scaled(Base(f), mode, lo, hi, d[1], d[2]), n2 |-> Norms2(f), cm |-> cm]>>,
                      !.marks = <<[kind |-> "scale", g |-> g, x |-> x, n2 |-> Norms2(f), cm |-> cm]>>]
UnitVectors(g, x, f, mode, lo, hi, cm) ==
  LET d == Steps2(g, x)
  IN [NoFigure EXCEPT !.arrows = <<[g |-> g, x |-> x, b |-> Scaled(Units(f, d[1], d[2]), mode, lo, hi, d[1], d[2]), n2 |-> Norms2(f), cm |-> "none"]>>,
                      !.maps = <<Map("heatmap", g, x, f, cm)>>]
FieldMap(g, x, f, cm) == [NoFigure EXCEPT !.maps = <<Map("heatmap", g, x, f, cm)>>]
FieldContour(g, x, f, cm) == [NoFigure EXCEPT !.maps = <<Map("contour", g, x, f, cm)>>]
\* the reference minus the comparison
ParityMap(g, x, f, f2, cm) == [NoFigure EXCEPT !.maps = <<[type |-> "delta", g |-> g, x |-> x, f |-> f, f2 |-> f2, cm |-> cm]>>]
\* reference to the right, comparison upwards, and the line of equal values
Parity(f, f2, ends) ==
  LET pairs == IF f.vec THEN [k \in 1..(2 * Len(f.u)) |-> IF k <= Len(f.u) THEN <<f.u[k], f2.u[k]>> ELSE <<f.v[k - Len(f.u)], f2.v[k - Len(f.u)]>>]
               ELSE [k \in DOMAIN f.z |-> <<f.z[k], f2.z[k]>>]
  IN [NoFigure EXCEPT !.marks = <<[kind |-> "pairs", pairs |-> pairs]>>, !.lines = <<ends>>]
\* the depth average drawn by a grid itself: the second remaining axis to the right
SimplePlot(g, st, x) ==
  NoFigure @@ [t |-> "fig", updates |-> <<>>] @@ [simple |-> [g |-> g, x |-> x, z |-> Collapse(g, st, x)]]

-----------------------------------------------------------------------------
(* Comparison with a recorded figure *)
ColourNear(c, l, tol) == \A k \in 1..3 : Abs(c[k] - l[k]) <= tol
\* the colour map as eleven steps; "none": the default
ScaleOK(cm, l) ==
  LET t == Colours[IF cm = "none" THEN "plasma" ELSE cm]
  IN Len(l) = 11 /\ \A k \in 0..10 : l[k + 1][1] = Norm(k, 10) /\ ColourNear(t[10 * k + 1], l[k + 1][2], 1)

\* position of the centre of the plane cell k along its two axes; radii and angles are not judged
Coord(g, d, i) == IF g.kind = "cart" THEN AxisCentre(g.lim[d][1], g.lim[d][2], g.cells[d], i)
                  ELSE AxisUpper(g.lim[d][1], g.lim[d][2], g.cells[d], i)
CoordOK(g, d, i, l) == (g.kind = "cyl" /\ d < 3) \/ Same(Coord(g, d, i), l)
PlacedAt(g, x, k, lx, ly) ==
  LET c == PlaneCells(g, x)[k] IN CoordOK(g, Rest(x)[1], c[1], lx) /\ CoordOK(g, Rest(x)[2], c[2], ly)

\* recorded values come with their squares
ValueOK(f, k, v, sq) ==
  IF ~f.vec THEN Same(f.z[k], v)
  ELSE LET n2 == Norms2(f)[k] IN IF IsNaN(n2) THEN IsNaN(v) ELSE Same(n2, sq) /\ v[1] >= 0

\* the points of a map come ordered by their coordinates, which is the order of the cells
MapOK(m, l) ==
  LET n == Len(PlaneCells(m.g, m.x))
      s == Shown(m.f)
  IN /\ l.type = m.type /\ Len(l.pts) = n
     /\ \A k \in 1..n : /\ PlacedAt(m.g, m.x, k, l.pts[k][1], l.pts[k][2])
                        /\ ValueOK(m.f, k, l.pts[k][3], l.pts[k][4])
     /\ ScaleOK(m.cm, l.scale)
     /\ m.type = "contour" =>
          \* ten steps between the smallest and the largest value
          /\ l.auto = 0
          /\ AnyValue(s) =>
               /\ Same(RMin(s), l.levels[1][IF m.f.vec THEN 2 ELSE 1])
               /\ Same(RMax(s), l.levels[2][IF m.f.vec THEN 2 ELSE 1])
               /\ RMin(s) # RMax(s) => Same(R(10), l.levels[3])
DeltaOK(m, l) ==
  LET n == Len(PlaneCells(m.g, m.x))
      a == Shown(m.f) b == Shown(m.f2)
  IN /\ l.type = "heatmap" /\ Len(l.pts) = n
     /\ m.cm # "none" => ScaleOK(m.cm, l.scale)
     /\ \A k \in 1..n :
          /\ PlacedAt(m.g, m.x, k, l.pts[k][1], l.pts[k][2])
          /\ IF ~m.f.vec THEN Same(RSub(a[k], b[k]), l.pts[k][3])
             ELSE IF IsNaN(a[k]) \/ IsNaN(b[k]) THEN IsNaN(l.pts[k][3])
             ELSE /\ ~IsNaN(l.pts[k][3])
                  /\ Abs(RootThousandths(a[k]) - RootThousandths(b[k]) - Thousandths(l.pts[k][3])) <= 3
SimpleOK(m, l) ==
  LET n1 == m.g.cells[Rest(m.x)[1]] n2 == m.g.cells[Rest(m.x)[2]]
  IN /\ l.type = "heatmap" /\ Len(l.pts) = n1 * n2
     /\ \A i \in 1..n1, j \in 1..n2 :
          LET p == l.pts[(j - 1) * n1 + i]
          IN PlacedAt(m.g, m.x, (i - 1) * n2 + j, p[2], p[1]) /\ Same(m.z[(i - 1) * n2 + j], p[3])

\* the colour of a length between the smallest and the largest
ArrowColourOK(a, k, l) ==
  LET lo == RootThousandths(RMin(a.n2)) hi == RootThousandths(RMax(a.n2))
      at == (100 * (RootThousandths(a.n2[k]) - lo)) \div (hi - lo)
      t == Colours[a.cm]
      near == {Max2(0, Min2(100, x)) + 1 : x \in {at - 1, at, at + 1, at + 2}}
  IN hi - lo < 100 \/ \A c \in 1..3 :
       /\ \E y \in near : l[c] >= t[y][c] - 3
       /\ \E y \in near : l[c] <= t[y][c] + 3
Vanishes(b) == IsNaN(b.q[1]) \/ IsNaN(b.q[2])
ArrowOK(a, k, l) ==
  LET b == a.b[k]
  IN /\ PlacedAt(a.g, a.x, k, l.base[1], l.base[2])
     /\ IF Vanishes(b) THEN IsNaN(l.d[1][2])
        ELSE /\ \A c \in 1..2 : /\ l.d[c][1] = (IF b.q[c] = RZero THEN 0 ELSE b.s[c])
                                /\ Same(b.q[c], l.d[c][2])
             /\ l.closed = 1
             \* the head: 0.3 of the length, 20 degrees to both sides
             /\ Len2(b) # RZero => l.head = << <<<<-20, 1>>, <<3, 10>>>>, <<<<20, 1>>, <<3, 10>>>> >>
     /\ l.fill = l.line
     /\ IF a.cm = "none" THEN l.fill = <<0, 0, 0>> ELSE Vanishes(b) \/ IsNaN(a.n2[k]) \/ ArrowColourOK(a, k, l.fill)
ArrowsOK(as, l) ==
  IF as = <<>> THEN l = <<>>
  ELSE Len(l) = Len(as[1].b) /\ \A k \in 1..Len(l) : ArrowOK(as[1], k, l[k])

SameBag(e, l) ==
  Len(e) = Len(l) /\ \A x \in {l[k] : k \in 1..Len(l)} :
    Cardinality({k \in 1..Len(l) : l[k] = x}) = Cardinality({k \in 1..Len(e) : Same(e[k][1], x[1]) /\ Same(e[k][2], x[2])})
MarksOK(m, l) ==
  IF m.kind = "pairs" THEN l.even = 1 /\ SameBag(m.pairs, l.pts)
  ELSE \* the colour bar
       /\ ScaleOK(m.cm, l.scale) /\ l.show = (IF m.cm = "none" THEN 0 ELSE 1)
       /\ Len(l.range[1]) = 2 /\ Len(l.range[2]) = 2
       /\ AnyValue(m.n2) => Same(RMin(m.n2), l.range[1][2]) /\ Same(RMax(m.n2), l.range[2][2])
\* from the smallest value of both fields to the largest
LineOK(ends, l) ==
  /\ Len(l.x) = 2 /\ l.x = l.y
  /\ (\A k \in DOMAIN ends : AnyValue(ends[k])) /\ ends # <<>> =>
       Same(RMin(ends[1] \o ends[2]), l.x[1]) /\ Same(RMax(ends[1] \o ends[2]), l.x[2])

FigureOK(e, l) ==
  /\ l.t = "fig" /\ l.other = 0
  /\ IF "simple" \in DOMAIN e THEN Len(l.maps) = 1 /\ SimpleOK(e.simple, l.maps[1])
     ELSE Len(l.maps) = Len(e.maps) /\ \A k \in 1..Len(e.maps) : IF e.maps[k].type = "delta" THEN DeltaOK(e.maps[k], l.maps[k]) ELSE MapOK(e.maps[k], l.maps[k])
  /\ ArrowsOK(e.arrows, l.arrows)
  /\ Len(l.marks) = Len(e.marks) /\ \A k \in 1..Len(e.marks) : MarksOK(e.marks[k], l.marks[k])
  /\ Len(l.lines) = Len(e.lines) /\ \A k \in 1..Len(e.lines) : LineOK(e.lines[k], l.lines[k])
=============================================================================
