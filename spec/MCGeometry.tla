----------------------------- MODULE MCGeometry -----------------------------
(* Exhaustive check of the geometry itself on all small grids and positions:  *)
(* the lookup is a partition, agrees with the reported positions, and the     *)
(* cells of a cylinder have equal volume.                                     *)
EXTENDS Geometry, FiniteSets, TLC, SequencesExt, Json, IOUtils
CONSTANTS Kinds, Ext, MaxN          \* lattice extent and maximal number of cells per axis

VARIABLES g, p
vars == <<g, p>>

Lims == {l \in (-1..Ext) \X (-1..Ext) : l[1] < l[2]}
Coord == (-2..(Ext + 1)) \cup {UNDEF}
CartGrids == {[kind |-> "cart", cells |-> <<n, m, 1>>, lim |-> <<lx, ly, <<0, 1>>>>] :
                n \in 1..MaxN, m \in {1, 2}, lx \in Lims, ly \in {<<0, 2>>, <<-1, 2>>}}
CylGrids == {[kind |-> "cyl", cells |-> <<n, m, k>>, lim |-> <<lx, ly, <<0, 2>>>>] :
                n \in 1..MaxN, m \in SectorCounts, k \in {1, 2}, lx \in {<<-2, 2>>, <<0, 3>>}, ly \in {<<-2, 2>>, <<-1, 1>>}}

Places(gr) ==
  IF gr.kind = "cart" THEN {<<x, y, z>> : x \in Coord, y \in {-2, -1, 0, 1, 2, UNDEF}, z \in {0, 1, 2}}
  ELSE {<<x, y, z>> : x \in -3..4, y \in -3..3, z \in {-1, 0, 1, 2, UNDEF}}
Init == /\ g \in (IF "cart" \in Kinds THEN CartGrids ELSE {}) \cup (IF "cyl" \in Kinds THEN CylGrids ELSE {})
        /\ p \in Places(g)
Next == UNCHANGED vars

\* the lookup yields a cell of the grid exactly inside the limits
CellExists ==
  /\ CellNo(g, p) \in 0..NCells(g)
  /\ (CellNo(g, p) # 0) = Inside(g, p)
  /\ CellNo(g, p) # 0 => Flat(g, Unflat(g, CellNo(g, p))) = CellNo(g, p)

\* x lies in the half-open interval of cell c (closed at the top of the last cell)
InAxisCell(x, lo, hi, n, c) ==
  /\ (x - lo) * n >= c * (hi - lo)
  /\ (x - lo) * n < (c + 1) * (hi - lo) \/ (c = n - 1 /\ x = hi)
ExactlyOneBox ==
  (g.kind = "cart" /\ Inside(g, p)) =>
     {c \in 1..NCells(g) : \A a \in 1..3 : InAxisCell(p[a], g.lim[a][1], g.lim[a][2], g.cells[a], Unflat(g, c)[a])}
       = {CellNo(g, p)}
\* the reported centre of a cell is half a cell from the positions at its lower face
CentreInCell ==
  g.kind = "cart" => \A k \in 0..(g.cells[1] - 1) :
     LET c == AxisCentre(g.lim[1][1], g.lim[1][2], g.cells[1], k)
         lo == Norm(g.lim[1][1] * g.cells[1] + k * (g.lim[1][2] - g.lim[1][1]), g.cells[1])
     IN RSub(c, lo) = Norm(g.lim[1][2] - g.lim[1][1], 2 * g.cells[1])

\* ring k holds the squared radii between R^2 k/n and R^2 (k+1)/n
RingOK ==
  (g.kind = "cyl" /\ Inside(g, p)) =>
     LET rr == CylX(g, p) * CylX(g, p) + CylY(g, p) * CylY(g, p)
         R2 == CylR(g) * CylR(g)
         k == CylRing(g, p)
     IN /\ rr * g.cells[1] >= k * R2
        /\ rr * g.cells[1] < (k + 1) * R2 \/ (k = g.cells[1] - 1 /\ rr = R2)
\* rotating the lattice by 90 degrees advances the sector by a quarter of the circle
SectorTurn ==
  (g.kind = "cyl" /\ Inside(g, p) /\ g.cells[2] \in {4, 8, 12}) =>
     LET x == CylX(g, p) y == CylY(g, p) n == g.cells[2]
     IN (<<x, y>> # <<0, 0>> /\ ~(y = 0 \/ x = 0)) => Sector(-y, x, n) = (Sector(x, y, n) + n \div 4) % n
\* halves of the circle: sectors of the lower half plane come first
SectorHalf ==
  (g.kind = "cyl" /\ Inside(g, p) /\ g.cells[2] % 2 = 0) =>
     (CylY(g, p) # 0 => ((CylY(g, p) < 0) = (Sector(CylX(g, p), CylY(g, p), g.cells[2]) < g.cells[2] \div 2)))
\* finer sectors refine coarser ones
SectorRefines ==
  (g.kind = "cyl" /\ Inside(g, p)) =>
     LET x == CylX(g, p) y == CylY(g, p)
     IN /\ Sector(x, y, 12) \div 2 = Sector(x, y, 6)
        /\ Sector(x, y, 8) \div 2 = Sector(x, y, 4)
        /\ Sector(x, y, 12) \div 3 = Sector(x, y, 4)

\* every grid with all its positions, once
Session == [kind |-> "geom", g |-> g, pos |-> SetToSeq(Places(g)), u |-> "1", off |-> <<"0", "0", "0">>]
Emit == (p = <<0, 0, 1>> /\ "EMIT" \in DOMAIN IOEnv) => PrintT("SESSION " \o ToJson(Session))
=============================================================================
