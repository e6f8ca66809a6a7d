------------------------------ MODULE GridStore ------------------------------
(* What a grid holds, and how every grid operation changes it.                *)
(* A store maps the cells 1..N (row-major) to a rational value and weight.    *)
EXTENDS Geometry, FiniteSets, TLC

EmptyStore(g) == [val |-> [c \in 1..NCells(g) |-> RZero], wt |-> [c \in 1..NCells(g) |-> RZero]]

AddAt(st, c, v, w) ==
  [val |-> [st.val EXCEPT ![c] = RAdd(@, v)], wt |-> [st.wt EXCEPT ![c] = RAdd(@, w)]]

Half == <<1, 2>>

\* neighbours (up to 26) of a cell that exist in the grid
Around(g, f) ==
  LET c == Unflat(g, f)
      axis(a) == {i \in {c[a] - 1, c[a], c[a] + 1} : i >= 0 /\ i < g.cells[a]}
  IN {Flat(g, <<i, j, k>>) : i \in axis(1), j \in axis(2), k \in axis(3)} \ {f}

RECURSIVE RSumOver(_, _)
RSumOver(fn, S) == IF S = {} THEN RZero ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN RAdd(fn[x], RSumOver(fn, S \ {x}))

RMean(fn, S) == RDiv(RSumOver(fn, S), R(Cardinality(S)))

Outliers(g, st, th, mode) ==
  LET out == {c \in 1..NCells(g) : RGt(st.val[c], th)}
      \* Cartesian grids average over the neighbours that are not outliers themselves
      from(c) == IF g.kind = "cart" THEN Around(g, c) \ out ELSE Around(g, c)
  IN CASE mode = 0 -> [st EXCEPT !.val = [c \in DOMAIN @ |-> IF c \in out THEN RZero ELSE @[c]]]
       [] mode = 1 -> [st EXCEPT !.val = [c \in DOMAIN @ |-> IF c \in out THEN th ELSE @[c]]]
       [] mode = 2 -> [val |-> [c \in 1..NCells(g) |-> IF c \in out THEN RMean(st.val, from(c)) ELSE st.val[c]],
                       wt  |-> [c \in 1..NCells(g) |-> IF c \in out THEN RMean(st.wt, from(c)) ELSE st.wt[c]]]

(* The effect of one operation o on a store. *)
Apply(g, st, o) ==
  CASE o.op = "add" ->
         LET c == CellNo(g, o.pos) IN IF c = 0 THEN st ELSE AddAt(st, c, o.v, ROne)
    [] o.op = "addcell" -> AddAt(st, Flat(g, o.cell), o.v, ROne)
    [] o.op = "insert" ->
         LET c == CellNo(g, o.pos) IN IF c = 0 THEN st ELSE [st EXCEPT !.val[c] = o.v]
    [] o.op = "traj" ->
         LET a == CellNo(g, o.pos) b == CellNo(g, o.pos2)
         IN IF g.kind = "cyl" THEN (IF a = 0 THEN st ELSE AddAt(st, a, o.v, ROne))
            ELSE IF a = 0 \/ b = 0 THEN st
            ELSE AddAt(AddAt(st, a, RMul(o.v, Half), Half), b, RMul(o.v, Half), Half)
    [] o.op = "divscalar" -> [st EXCEPT !.val = [c \in DOMAIN @ |-> RDiv(@[c], o.v)]]
    [] o.op = "divarray" -> [st EXCEPT !.val = [c \in DOMAIN @ |-> RDiv(@[c], o.arr[c])]]
    [] o.op = "divweight" -> [st EXCEPT !.val = [c \in DOMAIN @ |-> RDiv(@[c], st.wt[c])]]
    [] o.op = "setdata" -> [st EXCEPT !.val = o.arr]
    [] o.op = "setweights" -> [st EXCEPT !.wt = o.arr]
    [] o.op = "outlier" -> Outliers(g, st, o.v, o.mode)
    [] o.op = "refused" -> st          \* a call with a bad shape or mode has no effect
    [] o.op = "zeros" -> EmptyStore(g) \* continue with the new zeroed grid
    [] o.op = "observe" -> st

-----------------------------------------------------------------------------
(* Reductions.  Results are row-major sequences over the remaining axes.      *)
\* cells of the line along axis a through the remaining coordinates r (a pair)
Line(g, a, r) ==
  [i \in 1..g.cells[a] |->
     Flat(g, IF a = 1 THEN <<i - 1, r[1], r[2]>>
             ELSE IF a = 2 THEN <<r[1], i - 1, r[2]>>
             ELSE <<r[1], r[2], i - 1>>)]
Rest(a) == IF a = 1 THEN <<2, 3>> ELSE IF a = 2 THEN <<1, 3>> ELSE <<1, 2>>
PlaneCells(g, a) ==
  LET n1 == g.cells[Rest(a)[1]] n2 == g.cells[Rest(a)[2]]
  IN [k \in 1..(n1 * n2) |-> <<(k - 1) \div n2, (k - 1) % n2>>]

NoNaN(x) == IF IsNaN(x) THEN RZero ELSE x

\* weight-weighted mean of parallel sequences of values and weights
WMean(vals, wts) ==
  RDiv(RSum([i \in 1..Len(vals) |-> RMul(NoNaN(vals[i]), wts[i])]), RSum(wts))

Collapse(g, st, a) ==
  LET pc == PlaneCells(g, a)
      w(x) == IF g.kind = "cyl" THEN NoNaN(x) ELSE x
  IN [k \in DOMAIN pc |->
        LET ln == Line(g, a, pc[k])
        IN WMean([i \in DOMAIN ln |-> st.val[ln[i]]], [i \in DOMAIN ln |-> w(st.wt[ln[i]])])]
CollapseW(g, st, a) ==
  LET pc == PlaneCells(g, a)
  IN [k \in DOMAIN pc |-> LET ln == Line(g, a, pc[k]) IN RSum([i \in DOMAIN ln |-> st.wt[ln[i]]])]

\* two axes: the third axis remains; the smaller axis is collapsed first
CollapseTwo(g, st, a1, a2) ==
  LET a == Min2(a1, a2)
      b == Max2(a1, a2)
      v == Collapse(g, st, a)
      w == CollapseW(g, st, a)
      n1 == g.cells[Rest(a)[1]]
      n2 == g.cells[Rest(a)[2]]
      first == Rest(a)[1] = b           \* b is the first remaining axis
      line(k) == IF first THEN [i \in 1..n1 |-> (i - 1) * n2 + k] ELSE [i \in 1..n2 |-> (k - 1) * n2 + i]
  IN [k \in 1..(IF first THEN n2 ELSE n1) |->
        WMean([i \in DOMAIN line(k) |-> v[line(k)[i]]], [i \in DOMAIN line(k) |-> w[line(k)[i]]])]
CollapseTwoW(g, st, a1, a2) ==
  LET c == CHOOSE x \in {1, 2, 3} : x # a1 /\ x # a2
  IN [k \in 1..g.cells[c] |->
        RSumOver(st.wt, {f \in 1..NCells(g) : Unflat(g, f)[c] = k - 1})]

SliceIdx(g, st, a, i) ==
  LET pc == PlaneCells(g, a) IN [k \in DOMAIN pc |-> st.val[Line(g, a, pc[k])[i + 1]]]

(* Index of the plane that contains a coordinate: lattice coordinates for     *)
(* Cartesian axes and the height of a cylinder, the doubled radius for rings, *)
(* 24ths of pi for the angle.                                                 *)
SliceOf(g, a, x) ==
  IF g.kind = "cart" \/ a = 3 THEN AxisCell(x, g.lim[a][1], g.lim[a][2], g.cells[a])
  ELSE IF a = 1 THEN Min2((g.cells[1] * x * x) \div (CylR(g) * CylR(g)), g.cells[1] - 1)
  ELSE AxisCell(x, -24, 24, g.cells[2])
=============================================================================
