------------------------------ MODULE Geometry ------------------------------
(* Grid geometry on an integer lattice.                                       *)
(*                                                                            *)
(* A grid is a record [kind |-> "cart" | "cyl", cells |-> <<n1,n2,n3>>,       *)
(* lim |-> <<<<lo,hi>>, <<lo,hi>>, <<lo,hi>>>>] with integer limits in x, y   *)
(* and z; positions are integer triples.  An undefined coordinate is UNDEF.   *)
(*                                                                            *)
(* Cartesian cells are the half-open boxes of equal size, the upper limit     *)
(* belonging to the last cell.  The cylinder is centred in the x/y limits,    *)
(* its radius is the larger half extent; ring k of n covers the squared radii *)
(* [k R^2/n, (k+1) R^2/n), sector s of n the angles -pi + 2 pi [s, s+1)/n,    *)
(* which integer arithmetic decides exactly for the sector counts used here.  *)
EXTENDS Rat

UNDEF == 1000000007

Defined(p) == p[1] # UNDEF /\ p[2] # UNDEF /\ p[3] # UNDEF
NCells(g) == g.cells[1] * g.cells[2] * g.cells[3]

-----------------------------------------------------------------------------
\* one axis divided evenly
AxisCell(x, lo, hi, n) == Min2(((x - lo) * n) \div (hi - lo), n - 1)
InRange(x, lo, hi) == x >= lo /\ x <= hi

CartInside(g, p) == Defined(p) /\ \A a \in 1..3 : InRange(p[a], g.lim[a][1], g.lim[a][2])
CartCell(g, p) == [a \in 1..3 |-> AxisCell(p[a], g.lim[a][1], g.lim[a][2], g.cells[a])]

-----------------------------------------------------------------------------
\* doubled coordinates relative to the axis, so that the centre is a lattice point
CylX(g, p) == 2 * p[1] - g.lim[1][1] - g.lim[1][2]
CylY(g, p) == 2 * p[2] - g.lim[2][1] - g.lim[2][2]
\* doubled radius
CylR(g) == Max2(g.lim[1][2] - g.lim[1][1], g.lim[2][2] - g.lim[2][1])

CylInside(g, p) ==
  /\ Defined(p)
  /\ CylX(g, p) * CylX(g, p) + CylY(g, p) * CylY(g, p) <= CylR(g) * CylR(g)
  /\ InRange(p[3], g.lim[3][1], g.lim[3][2])

\* sectors of 30 degrees (0..11) and of 45 degrees (0..7), counted from -pi
Quad30(a, b) == IF 3 * b * b < a * a THEN 0 ELSE IF b * b < 3 * a * a THEN 1 ELSE 2
Quad45(a, b) == IF b < a THEN 0 ELSE 1
\* per = sectors per quadrant; Q(_,_) classifies (a,b) with a>0 or b>0, a>=0, b>=0, angle from a in [0,90)
SectorFine(x, y, per, Q(_, _)) ==
  IF y < 0 /\ x < 0 THEN Q(-x, -y)                                       \* [-180, -90) without -180
  ELSE IF y < 0 /\ x >= 0 THEN per + Q(-y, x)                            \* [-90, 0)
  ELSE IF x > 0 /\ y >= 0 THEN 2 * per + Q(x, y)                         \* [0, 90)
  ELSE IF y > 0 /\ x <= 0 THEN 3 * per + Q(y, -x)                        \* [90, 180)
  ELSE 4 * per - 1                                                       \* exactly 180: last sector
Sector(x, y, n) ==
  IF n \in {1, 2, 3, 4, 6, 12} THEN (SectorFine(x, y, 3, Quad30) * n) \div 12
  ELSE (SectorFine(x, y, 2, Quad45) * n) \div 8                           \* n = 8
SectorCounts == {1, 2, 3, 4, 6, 8, 12}

CylRing(g, p) ==
  LET x == CylX(g, p) y == CylY(g, p)
  IN Min2((g.cells[1] * (x * x + y * y)) \div (CylR(g) * CylR(g)), g.cells[1] - 1)
CylCell(g, p) ==
  << CylRing(g, p),
     Sector(CylX(g, p), CylY(g, p), g.cells[2]),
     AxisCell(p[3], g.lim[3][1], g.lim[3][2], g.cells[3]) >>

-----------------------------------------------------------------------------
Inside(g, p) == IF g.kind = "cart" THEN CartInside(g, p) ELSE CylInside(g, p)
Cell(g, p) == IF g.kind = "cart" THEN CartCell(g, p) ELSE CylCell(g, p)

\* cells are numbered from 1 in row-major order, 0 stands for "in no cell"
Flat(g, c) == (c[1] * g.cells[2] + c[2]) * g.cells[3] + c[3] + 1
Unflat(g, f) == << (f - 1) \div (g.cells[2] * g.cells[3]),
                   ((f - 1) \div g.cells[3]) % g.cells[2],
                   (f - 1) % g.cells[3] >>
CellNo(g, p) == IF Inside(g, p) THEN Flat(g, Cell(g, p)) ELSE 0

\* centre of cell i (0-based) of an evenly divided axis, as a rational
AxisCentre(lo, hi, n, i) == Norm(2 * n * lo + (2 * i + 1) * (hi - lo), 2 * n)
AxisUpper(lo, hi, n, i) == Norm(n * lo + (i + 1) * (hi - lo), n)
=============================================================================
