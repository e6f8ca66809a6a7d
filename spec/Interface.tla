------------------------------ MODULE Interface ------------------------------
(* The Python interface: which parameters a call takes in which order and     *)
(* with which defaults, which objects it makes and changes, and what it gives *)
(* back.  A session is a sequence of calls; the k-th call makes the k-th      *)
(* object of the heap h.  An argument is a tagged value [t, v].               *)
EXTENDS Analyses, Plots, Calling

-----------------------------------------------------------------------------
(* Parameters *)
PlotParams == << P("axis", "axis"), D("selection", "any", AStr("depth_average")), D("index", "plane", ANone) >>
PlotStyle == << D("layout", "dict", ANone), D("style", "dict", ANone) >>
PlotColour == << D("colour_map", "any", ANone) >>
PlotSizes == << D("scaling_mode", "any", ANone), D("min_size", "size", ANone), D("max_size", "size", ANone) >>
PlotNames == {"quiver_plot", "unit_vector_plot", "scalar_map", "scalar_contour", "parity_plot", "parity_map", "parity_contour"}
PlotTable(m) ==
  CASE m \in {"quiver_plot", "unit_vector_plot"} -> PlotParams \o PlotSizes \o PlotColour \o PlotStyle
    [] m \in {"scalar_map", "scalar_contour"} -> PlotParams \o PlotColour \o PlotStyle
    [] m = "parity_plot" -> << P("comparison_grid", "any") >> \o PlotParams \o PlotStyle
    [] m \in {"parity_map", "parity_contour"} -> << P("comparison_grid", "any") >> \o PlotParams \o PlotColour \o PlotStyle

PlainViews == {"to_numpy", "cell_positions", "shape"}
DataTable(m) ==
  CASE m \in {"dimensions", "min_position", "max_position", "nparticles", "time", "mean_velocity", "len", "list", "str", "repr", "stats"} -> <<>>
    [] m = "getitem" -> << P("idx", "any") >>
    [] m = "set_time" -> << P("min_time", "float"), P("max_time", "float") >>
    [] m \in {"vectorfield", "numberfield"} -> << P("grid", "grid") >>
    [] m = "velocityfield" ->
         << P("grid", "grid"), D("mode", "str", AStr("absolute")), D("min_velocity", "float", ANum(-1000000)),
            D("max_velocity", "float", ANum(1000000)) >>
    [] m = "extract" -> << P("particle_id", "count"), P("timestep", "counts") >>
    [] m \in {"occupancyfield", "homogenity_index"} -> << P("grid", "grid"), D("min_vel", "float", ANum(0)) >>
    [] m = "dispersion" -> << P("grid", "grid"), P("time_for_dispersion", "float") >>
    [] m = "histogram" ->
         << P("grid", "grid"), D("property", "str", AStr("velocity")), D("bins", "count", AInt(100)), D("limit", "float", ANum(0)) >>
    [] m = "granular_temperature" -> << P("grid", "grid"), D("mode", "str", AStr("xyz")) >>
    [] m = "lacey_mixing_index" ->
         << P("grid", "grid"), D("type_a", "count", AInt(0)), D("type_b", "count", AInt(1)), D("threshold", "count", AInt(10)) >>
    [] m = "circulation_time" -> << P("position", "float"), D("axis", "count", AInt(0)) >>
    [] m = "circulation_time_two_boundary" -> << P("position", "floats"), D("axis", "count", AInt(0)) >>
    [] m = "concentration_field" -> << P("grid", "grid"), D("type_a", "count", AInt(1)), D("type_b", "count", AInt(2)) >>
    [] m = "msd_field" -> << P("grid", "grid"), P("time", "float") >>
    [] m = "msd" -> << P("grid", "grid"), D("min_time", "float", ANum(0)), D("max_time", "float", ANum(0)), D("steps", "count", AInt(100)) >>
GridTable(m) ==
  CASE m \in PlainViews \cup {"weights_to_numpy", "xpositions", "ypositions", "zpositions", "str", "repr"} -> <<>>
    [] m = "slice" -> << P("axis", "count"), P("index", "count") >>
    [] m = "slice_pos" -> << P("axis", "count"), P("position", "float") >>
    [] m \in {"collapse", "plot"} -> << P("axis", "count") >>
    [] m = "collapse_two" -> << P("axis1", "count"), P("axis2", "count") >>
    [] m = "is_inside" -> << P("position", "any") >>
    [] m = "cell_id" -> << P("x", "float"), P("y", "float"), P("z", "float") >>
    [] m = "remove_outliers" -> << P("mode", "count"), P("threshold", "float") >>

Table(kind, m) ==
  CASE kind = "data" -> DataTable(m)
    [] kind \in {"grid", "vec"} -> GridTable(m)
    [] kind = "plotter" -> PlotTable(m)
    [] m \in {"Data", "Data.from_tdata", "Data.from_pdata"} -> << P("filename", "str") >>
    [] m = "Grid" -> << D("data", "any", ANone), D("num_cells", "any", [t |-> "list", v |-> <<AInt(50), AInt(50), AInt(50)>>]),
                        D("grid_style", "any", AStr("cartesian")), D("cell_size", "any", ANone), D("limits", "any", ANone),
                        D("xlim", "any", ANone), D("ylim", "any", ANone), D("zlim", "any", ANone) >>
    [] m = "Plotter2D" -> << P("field", "any") >>
    [] m = "save_fig" -> << P("fig", "any"), P("filename", "any"), D("dpi", "any", AInt(600)), D("border_width", "any", AInt(20)),
                            D("paper_width", "any", AInt(210)) >>

IsKind(h, a, kinds) == a.t = "ref" /\ h[a.v].k \in kinds
Fits(h, ty, a) ==
  CASE ty = "any" -> TRUE
    [] ty = "str" -> a.t = "str"
    [] ty = "float" -> IsNum(a)
    [] ty = "floats" -> a.t = "tuple" /\ Len(a.v) = 2 /\ IsNum(a.v[1]) /\ IsNum(a.v[2])
    [] ty = "count" -> IsCount(a)
    [] ty = "counts" -> a.t = "tuple" /\ Len(a.v) = 2 /\ IsCount(a.v[1]) /\ IsCount(a.v[2])
    [] ty = "grid" -> IsKind(h, a, {"grid"})
    [] ty = "axis" -> IsCount(a) /\ a.v <= 2
    [] ty = "plane" -> IsNone(a) \/ IsCount(a)
    [] ty = "size" -> IsNone(a) \/ IsNum(a)
    [] ty = "dict" -> a.t \in {"none", "dict"}
WellTyped(h, ps, a) == \A k \in 1..Len(ps) : Fits(h, ps[k].ty, a[ps[k].n])

-----------------------------------------------------------------------------
(* Results *)
Refused(h) == [ok |-> FALSE, h |-> h]
Something == [k |-> "other"]
\* the call gives e and makes the object n
Gives(h, e, n) == [ok |-> TRUE, e |-> e, n |-> n, h |-> h]
Tells(h, e) == Gives(h, e, Something)

GridResult(g, st) == [t |-> "grid", g |-> g, st |-> st]
VecResult(g, st) == [t |-> "vec", g |-> g, st |-> st]
Arr(shape, v) == [t |-> "arr", shape |-> shape, v |-> v]
Line1(v) == Arr(<<Len(v)>>, v)
Seq3(Op(_)) == [t |-> "seq", v |-> <<Op(1), Op(2), Op(3)>>]
NumR(r) == [t |-> "num", v |-> r]

-----------------------------------------------------------------------------
(* Data *)
FreeTime == [default |-> 1]
DataObj(f) == [k |-> "data", ds |-> f.ds, sel |-> FreeTime]
OffFilters(a, b) == [time |-> <<a, b>>, radius |-> <<-1>>, clouds |-> <<-1>>, density |-> <<-1>>, ids |-> <<0>>]

FileNamed(fs, name) == {k \in 1..Len(fs) : fs[k].name = name}
Opened(h, fs, c, a) ==
  LET hit == FileNamed(fs, a["filename"].v)
  IN IF hit = {} THEN Refused(h)
     ELSE LET f == fs[CHOOSE k \in hit : TRUE]
              kind == IF "type" \in DOMAIN f THEN f.type ELSE 0
          IN IF c.c = "Data" /\ kind # (IF f.mgr = "t" THEN 1 ELSE 2) THEN Refused(h)
             ELSE Gives(h, [t |-> "obj"], DataObj(f))

ToOp(h, m, sel, a) ==
  LET g == h[a["grid"].v].g
      base(op) == [op |-> op, g |-> g, sel |-> sel]
  IN CASE m = "vectorfield" -> base("vector")
       [] m = "numberfield" -> base("number")
       [] m = "velocityfield" -> base("velocity") @@ [mode |-> a["mode"].v, vmin |-> Whole(a["min_velocity"]), vmax |-> Whole(a["max_velocity"])]
       [] m = "occupancyfield" -> base("occupancy") @@ [vmin |-> Whole(a["min_vel"])]
       [] m = "homogenity_index" -> base("homogeneity") @@ [vmin |-> Whole(a["min_vel"])]
       [] m = "dispersion" -> base("dispersion") @@ [lag |-> Whole(a["time_for_dispersion"])]
       [] m = "histogram" -> base("histogram") @@ [prop |-> a["property"].v, bins |-> a["bins"].v, vmax |-> Whole(a["limit"])]
       [] m = "granular_temperature" -> base("gtemp") @@ [mode |-> a["mode"].v]
       [] m = "lacey_mixing_index" -> base("lacey") @@ [ta |-> a["type_a"].v, tb |-> a["type_b"].v, thr |-> a["threshold"].v]
       [] m = "concentration_field" -> base("concentration") @@ [ta |-> a["type_a"].v, tb |-> a["type_b"].v]
       [] m = "msd_field" -> base("msdfield") @@ [lag |-> Whole(a["time"])]
       [] m = "msd" -> base("msd") @@ [lag |-> Whole(a["min_time"]), lag2 |-> Whole(a["max_time"]), steps |-> a["steps"].v]
OtherOp(m, sel, a) ==
  CASE m = "extract" -> [op |-> "extract", particle |-> a["particle_id"].v, from |-> a["timestep"].v[1].v, to |-> a["timestep"].v[2].v]
    [] m = "circulation_time" -> [op |-> "circ", sel |-> sel, axis |-> a["axis"].v + 1, b |-> Whole(a["position"])]
    [] m = "circulation_time_two_boundary" ->
         [op |-> "circ2", sel |-> sel, axis |-> a["axis"].v + 1, b |-> Whole(a["position"].v[1]), b2 |-> Whole(a["position"].v[2])]
    [] m = "mean_velocity" -> [op |-> "meanvel", sel |-> sel]

GridMethods == {"vectorfield", "numberfield", "velocityfield", "occupancyfield", "homogenity_index", "dispersion", "histogram",
                "granular_temperature", "lacey_mixing_index", "concentration_field", "msd_field", "msd"}

\* what the analysis o of a dataset gives
Analysed(h, o, ds) ==
  LET acc == Upto(o, ds, Len(ds.steps))
      field == FieldOf(o, acc)
      grid(st) == Gives(h, GridResult(o.g, st), [k |-> "grid", g |-> o.g, st |-> st])
  IN CASE o.op \in {"velocity", "number", "occupancy", "concentration", "msdfield"} -> grid(field)
       \* squares; what is derived from the field itself is judged elsewhere
       [] o.op = "gtemp" -> Gives(h, [t |-> "roots", g |-> o.g, st |-> field], [k |-> "grid", g |-> o.g, st |-> EmptyStore(o.g)])
       [] o.op = "vector" -> LET v == VectorOf(o, acc) IN Gives(h, VecResult(o.g, v), [k |-> "vec", g |-> o.g, st |-> v])
       [] o.op = "dispersion" -> Tells(h, [t |-> "seq", v |-> <<GridResult(o.g, field), NumR(Efficiency(field))>>])
       [] o.op = "homogeneity" -> Tells(h, [t |-> "root", v |-> HomogeneitySq(o.g, field)])
       [] o.op = "histogram" -> Tells(h, [t |-> "seq", v |-> <<Line1([k \in 1..o.bins |-> R(acc[k])]), Line1(HistEdges(o, ds))>>])
       [] o.op = "lacey" -> Tells(h, [t |-> "seq", v |-> <<Line1(acc.times), Line1(acc.index)>>])
       [] o.op = "msd" ->
            LET lags == MsdLags(o)
            IN Tells(h, [t |-> "seq", v |-> <<Line1([k \in 1..o.steps |-> MsdAt(o, ds, lags[k][1])]), Line1(lags)>>])
       [] o.op = "extract" -> Tells(h, Arr(<<Len(acc), 7>>, FlattenSeq(acc)))
       [] o.op = "circ" -> Tells(h, [t |-> "seq", v |-> [k \in 1..Len(acc.done) |-> NumR(R(acc.done[k]))]])
       [] o.op = "circ2" ->
            Tells(h, [t |-> "seq", v |-> [k \in 1..Len(acc.done) |-> [t |-> "seq", v |-> <<NumR(R(acc.done[k][1])), NumR(R(acc.done[k][2]))>>]]])
       [] o.op = "meanvel" -> Tells(h, NumR(R(ds.vmag[2])))

\* particles of the recorded step n: identity, position, velocity
Val(x) == IF x = UNDEF THEN NaN ELSE R(x)
Row(q) == << Val(q.id), Val(q.p[1]), Val(q.p[2]), Val(q.p[3]), Val(q.v[1]), Val(q.v[2]), Val(q.v[3]) >>
Rows(ds, n) == FlattenSeq([k \in 1..Len(ds.steps[n].parts) |-> Row(ds.steps[n].parts[k])])
\* several steps one below the other; missing particles are zero
Padded(ds, n) ==
  LET r == Rows(ds, n) IN r \o [k \in 1..(7 * (MaxParts(ds) - Len(ds.steps[n].parts))) |-> RZero]
Block(h, ds, ns) == Tells(h, Arr(<<Len(ns), MaxParts(ds), 7>>, FlattenSeq([k \in 1..Len(ns) |-> Padded(ds, ns[k])])))

\* steps (from 1) of a Python slice of n steps
SliceSteps(a, n) ==
  LET step == IF a[3] = UNDEF THEN 1 ELSE a[3]
      low == IF step > 0 THEN 0 ELSE -1
      high == IF step > 0 THEN n ELSE n - 1
      wrap(x) == LET y == IF x < 0 THEN x + n ELSE x IN Max2(low, Min2(high, y))
      start == IF a[1] = UNDEF THEN (IF step > 0 THEN low ELSE high) ELSE wrap(a[1])
      stop == IF a[2] = UNDEF THEN (IF step > 0 THEN high ELSE low) ELSE wrap(a[2])
      len == IF step > 0 THEN (IF start < stop THEN (stop - start - 1) \div step + 1 ELSE 0)
             ELSE (IF stop < start THEN (start - stop - 1) \div (-step) + 1 ELSE 0)
  IN [k \in 1..len |-> start + (k - 1) * step + 1]
Wrapped(i, n) == IF i < 0 THEN i + n + 1 ELSE i + 1

Items(h, ds, a) ==
  LET n == Len(ds.steps)
  IN CASE a.t = "int" ->
            LET k == Wrapped(a.v, n)
            IN IF k \notin 1..n THEN Refused(h) ELSE Tells(h, Arr(<<Len(ds.steps[k].parts), 7>>, Rows(ds, k)))
       [] a.t = "list" ->
            IF \E k \in 1..Len(a.v) : a.v[k].t # "int" THEN Refused(h)
            ELSE IF \E k \in 1..Len(a.v) : Wrapped(a.v[k].v, n) \notin 1..n THEN Refused(h)
            ELSE Block(h, ds, [k \in 1..Len(a.v) |-> Wrapped(a.v[k].v, n)])
       [] a.t = "slice" -> IF a.v[3] = 0 THEN Refused(h) ELSE Block(h, ds, SliceSteps(a.v, n))
       [] OTHER -> Refused(h)

DataCall(h, c, a) ==
  LET o == h[c.on]
      ds == o.ds
      corner(k) == [d \in 1..3 |-> R(ds.dims[d][k])]
      m == c.c
  IN CASE m = "dimensions" ->
            Tells(h, [t |-> "dict", v |-> [xmin |-> corner(1)[1], xmax |-> corner(2)[1], ymin |-> corner(1)[2], ymax |-> corner(2)[2],
                                           zmin |-> corner(1)[3], zmax |-> corner(2)[3]]])
       [] m = "min_position" -> Tells(h, Line1(corner(1)))
       [] m = "max_position" -> Tells(h, Line1(corner(2)))
       [] m = "nparticles" -> Tells(h, [t |-> "int", v |-> MaxParts(ds)])
       [] m = "len" -> Tells(h, [t |-> "int", v |-> Len(ds.steps)])
       [] m = "time" -> Tells(h, Line1([k \in 1..Len(ds.steps) |-> R(ds.steps[k].t)]))
       \* the texts are judged in Texts (C42)
       [] m \in {"str", "repr"} -> Tells(h, [t |-> "str", of |-> "data", ds |-> ds])
       [] m = "stats" -> Tells(h, [t |-> "none", of |-> "stats", ds |-> ds])
       [] m = "list" -> Tells(h, [t |-> "seq", v |-> [k \in 1..Len(ds.steps) |-> Arr(<<Len(ds.steps[k].parts), 7>>, Rows(ds, k))]])
       [] m = "getitem" -> Items(h, ds, a["idx"])
       [] m = "set_time" ->
            \* a window that begins after the recording is refused
            IF RLt(R(ds.steps[Len(ds.steps)].t), NumOf(a["min_time"])) THEN Refused(h)
            ELSE [Tells(h, [t |-> "none"]) EXCEPT !.h[c.on].sel = OffFilters(Whole(a["min_time"]), Whole(a["max_time"]))]
       [] OTHER ->
            LET op == IF m \in GridMethods THEN ToOp(h, m, o.sel, a) ELSE OtherOp(m, o.sel, a)
            IN IF ~Legal(op, ds) THEN Refused(h) ELSE Analysed(h, op, ds)

-----------------------------------------------------------------------------
(* Grids: the region comes from the limits, or from the data with single axes *)
(* replaced; the number of cells from the size of a cell if that is given.    *)
IsList(a) == a.t \in {"list", "array"}
AllNum(a) == \A k \in 1..Len(a.v) : IsNum(a.v[k])
Pair(a) == IsNone(a) \/ (IsList(a) /\ Len(a.v) = 2 /\ AllNum(a) /\ ~RLt(NumOf(a.v[2]), NumOf(a.v[1])))
WholeCells(lo, hi, size) == LET r == RDiv(R(hi - lo), NumOf(size)) IN r[1] \div r[2]

GridArgsOK(h, a) ==
  LET given == {x \in {"xlim", "ylim", "zlim"} : ~IsNone(a[x])}
  IN /\ IsNone(a["limits"]) \/ (IsList(a["limits"]) /\ Len(a["limits"].v) = 6 /\ AllNum(a["limits"]))
     /\ IF IsList(a["num_cells"]) THEN Len(a["num_cells"].v) = 3 /\ \A k \in 1..3 : IsCount(a["num_cells"].v[k])
        ELSE IsNone(a["num_cells"]) /\ ~IsNone(a["cell_size"])
     /\ \A x \in given : Pair(a[x])
     /\ IsNone(a["data"]) \/ IsKind(h, a["data"], {"data"})
     /\ IsStr(a["grid_style"], {"cartesian", "cylindrical"})
     /\ IsNone(a["cell_size"]) \/ (IsList(a["cell_size"]) /\ Len(a["cell_size"].v) = 3 /\ AllNum(a["cell_size"]))
     /\ IsNone(a["data"]) => IF IsNone(a["limits"]) THEN Cardinality(given) = 3 ELSE given = {}

NewGrid(h, a) ==
  IF ~GridArgsOK(h, a) THEN Refused(h)
  ELSE
    LET names == <<"xlim", "ylim", "zlim">>
        whole(x) == Whole(x)
        lim == [d \in 1..3 |->
                  IF ~IsNone(a["limits"]) THEN <<whole(a["limits"].v[2 * d - 1]), whole(a["limits"].v[2 * d])>>
                  ELSE IF ~IsNone(a[names[d]]) THEN <<whole(a[names[d]].v[1]), whole(a[names[d]].v[2])>>
                  ELSE h[a["data"].v].ds.dims[d]]
        cells == [d \in 1..3 |->
                    IF ~IsNone(a["cell_size"]) THEN WholeCells(lim[d][1], lim[d][2], a["cell_size"].v[d])
                    ELSE a["num_cells"].v[d].v]
        g == [kind |-> IF a["grid_style"].v = "cartesian" THEN "cart" ELSE "cyl", cells |-> cells, lim |-> lim]
    IN Gives(h, GridResult(g, EmptyStore(g)), [k |-> "grid", g |-> g, st |-> EmptyStore(g)])

Centres(g, d) ==
  [k \in 1..g.cells[d] |-> IF g.kind = "cart" THEN AxisCentre(g.lim[d][1], g.lim[d][2], g.cells[d], k - 1)
                           ELSE AxisUpper(g.lim[d][1], g.lim[d][2], g.cells[d], k - 1)]
\* radii and angles of cylinders are judged elsewhere (C02)
PosOf(g, d) == IF g.kind = "cyl" /\ d < 3 THEN [t |-> "arr", shape |-> <<g.cells[d]>>] ELSE Line1(Centres(g, d))

PlaneShape(g, x) == <<g.cells[Rest(x)[1]], g.cells[Rest(x)[2]]>>

GridCall(h, c, a) ==
  LET o == h[c.on]
      g == o.g
      m == c.c
      vec == o.k = "vec"
      \* one array, or one per component
      each(Op(_)) == Tells(h, IF vec THEN Seq3(LAMBDA k : Op(o.st[k])) ELSE Op(o.st))
      x == a["axis"].v + 1
      plane(Op(_)) == IF x > 3 THEN Refused(h) ELSE each(LAMBDA st : Arr(PlaneShape(g, x), Op(st)))
  IN CASE m = "to_numpy" -> each(LAMBDA st : Arr(g.cells, st.val))
       [] m = "weights_to_numpy" -> Tells(h, Arr(g.cells, o.st.wt))
       [] m = "cell_positions" -> Tells(h, Seq3(LAMBDA d : PosOf(g, d)))
       [] m \in {"xpositions", "ypositions", "zpositions"} ->
            Tells(h, PosOf(g, CASE m = "xpositions" -> 1 [] m = "ypositions" -> 2 [] m = "zpositions" -> 3))
       [] m = "shape" -> Tells(h, [t |-> "seq", v |-> [d \in 1..3 |-> [t |-> "int", v |-> g.cells[d]]]])
       [] m \in {"str", "repr"} -> Tells(h, [t |-> "str", of |-> o.k, g |-> g, st |-> o.st])
       [] m = "collapse" -> plane(LAMBDA st : Collapse(g, st, x))
       [] m = "slice" -> IF x > 3 THEN Refused(h) ELSE IF a["index"].v >= g.cells[x] THEN Refused(h)
                         ELSE plane(LAMBDA st : SliceIdx(g, st, x, a["index"].v))
       [] m = "slice_pos" -> plane(LAMBDA st : SliceIdx(g, st, x, SliceOf(g, x, Whole(a["position"]))))
       [] m = "collapse_two" ->
            LET p == a["axis1"].v + 1 q == a["axis2"].v + 1
            IN IF p > 3 \/ q > 3 THEN Refused(h) ELSE Tells(h, Line1(CollapseTwo(g, o.st, p, q)))
       [] m = "is_inside" ->
            LET p == a["position"]
            IN IF ~IsList(p) \/ ~AllNum(p) \/ Len(p.v) < 3 THEN Refused(h)
               ELSE Tells(h, [t |-> "bool", v |-> IF Inside(g, [d \in 1..3 |-> Whole(p.v[d])]) THEN 1 ELSE 0])
       [] m = "cell_id" ->
            LET p == <<Whole(a["x"]), Whole(a["y"]), Whole(a["z"])>>
            IN IF ~Inside(g, p) THEN Refused(h)
               ELSE Tells(h, [t |-> "seq", v |-> [d \in 1..3 |-> [t |-> "int", v |-> Cell(g, p)[d]]]])
       [] m = "remove_outliers" ->
            IF a["mode"].v > 2 THEN Refused(h)
            ELSE LET st == Outliers(g, o.st, NumOf(a["threshold"]), a["mode"].v)
                 IN [Tells(h, GridResult(g, st)) EXCEPT !.h[c.on].st = st]
       [] m = "plot" -> IF x > 3 THEN Refused(h) ELSE Tells(h, SimplePlot(g, o.st, x))

-----------------------------------------------------------------------------
(* Plots.  A plotter keeps the field as it was when the plotter was made.     *)
PlotterOf(h, a) ==
  IF ~IsKind(h, a["field"], {"grid", "vec"}) THEN Refused(h)
  ELSE LET f == h[a["field"].v] IN Gives(h, [t |-> "obj"], [k |-> "plotter", vec |-> f.k = "vec", g |-> f.g, st |-> f.st])

Opt(a, x) == IF x \in DOMAIN a THEN a[x] ELSE ANone
\* names of colour maps are not case-sensitive; sessions give the lower-case name next to such a one
Lower(a) == IF "low" \in DOMAIN a THEN a.low ELSE a.v
MapOf(a) == IF IsNone(Opt(a, "colour_map")) THEN "none" ELSE Lower(a["colour_map"])
PlotArgsOK(a) ==
  LET mode == Opt(a, "scaling_mode") cm == Opt(a, "colour_map")
  IN /\ IsStr(a["selection"], {"depth_average", "plane"})
     /\ a["selection"].v = "plane" => ~IsNone(a["index"])
     /\ IsNone(mode) \/ IsStr(mode, ScalingModes)
     /\ IsStr(mode, {"min", "minmax"}) => ~IsNone(a["min_size"])
     /\ IsStr(mode, {"max", "minmax"}) => ~IsNone(a["max_size"])
     /\ IsNone(cm) \/ (cm.t = "str" /\ Lower(cm) \in DOMAIN Colours)

PlotCall(h, c, a) ==
  LET o == h[c.on]
      g == o.g
      m == c.c
      x == a["axis"].v + 1
      arrows == m \in {"quiver_plot", "unit_vector_plot"}
      parity == m \in {"parity_plot", "parity_map", "parity_contour"}
      other == IF parity THEN a["comparison_grid"] ELSE ANone
      style == <<Opt(a, "style"), Opt(a, "layout")>>
      at == IF a["selection"].v = "plane" THEN a["index"].v ELSE -1
      \* averaged over the depth, or one plane of it
      cut(st) == IF at < 0 THEN Collapse(g, st, x) ELSE SliceIdx(g, st, x, at)
      width == IF IsNone(style[2]) THEN 700 ELSE IF "width" \in DOMAIN style[2].v THEN style[2].v.width ELSE 700
      shown(f) == Gives(h, f @@ [t |-> "fig", updates |-> <<style>>], [k |-> "fig", width |-> width, images |-> <<>>])
      scale(n) == IF IsNone(Opt(a, n)) THEN ROne ELSE NumOf(a[n])
      mode == IF IsNone(Opt(a, "scaling_mode")) THEN "none" ELSE a["scaling_mode"].v
      f == IF o.vec THEN [vec |-> TRUE, u |-> cut(o.st[Rest(x)[1]]), v |-> cut(o.st[Rest(x)[2]])] ELSE [vec |-> FALSE, z |-> cut(o.st)]
  IN IF ~PlotArgsOK(a) \/ (arrows /\ ~o.vec) THEN Refused(h)
     ELSE IF at >= g.cells[x] THEN Refused(h)
     ELSE IF parity /\ ~IsKind(h, other, IF o.vec THEN {"vec"} ELSE {"grid"}) THEN Refused(h)
     ELSE CASE m = "quiver_plot" -> shown(Quiver(g, x, f, mode, scale("min_size"), scale("max_size"), MapOf(a)))
            [] m = "unit_vector_plot" -> shown(UnitVectors(g, x, f, mode, scale("min_size"), scale("max_size"), MapOf(a)))
            [] m = "scalar_map" -> shown(FieldMap(g, x, f, MapOf(a)))
            [] m = "scalar_contour" -> shown(FieldContour(g, x, f, MapOf(a)))
            [] OTHER ->
                 LET q == h[other.v]
                     f2 == IF o.vec THEN [vec |-> TRUE, u |-> cut(q.st[Rest(x)[1]]), v |-> cut(q.st[Rest(x)[2]])] ELSE [vec |-> FALSE, z |-> cut(q.st)]
                 IN IF m = "parity_plot" THEN shown(Parity(f, f2, IF o.vec THEN <<>> ELSE <<o.st.val, q.st.val>>)) ELSE shown(ParityMap(g, x, f, f2, MapOf(a)))

Saved(h, a) ==
  IF ~IsKind(h, a["fig"], {"fig"}) THEN Refused(h)
  ELSE LET f == h[a["fig"].v]
           \* millimetres of paper at the resolution, in pixels of the figure
           s == RDiv(RMul(Norm(10 * (a["paper_width"].v - 2 * a["border_width"].v), 254), R(a["dpi"].v)), R(f.width))
           im == Append(f.images, <<a["filename"].v, s>>)
       IN [Tells(h, [t |-> "images", v |-> im]) EXCEPT !.h[a["fig"].v].images = im]

-----------------------------------------------------------------------------
(* The effect of call c *)
KindOn(h, c) == IF c.on = 0 THEN "up4" ELSE h[c.on].k
Outcome(h, fs, c) ==
  LET kind == KindOn(h, c)
      ps == Table(kind, c.c)
  IN IF ~Bindable(ps, c) THEN Refused(h)
     ELSE LET a == Args(ps, c)
          IN IF ~WellTyped(h, ps, a) THEN Refused(h)
             ELSE CASE kind = "data" -> DataCall(h, c, a)
                    [] kind \in {"grid", "vec"} -> GridCall(h, c, a)
                    [] kind = "plotter" -> PlotCall(h, c, a)
                    [] c.c \in {"Data", "Data.from_tdata", "Data.from_pdata"} -> Opened(h, fs, c, a)
                    [] c.c = "Grid" -> NewGrid(h, a)
                    [] c.c = "Plotter2D" -> PlotterOf(h, a)
                    [] c.c = "save_fig" -> Saved(h, a)
\* the heap afterwards
After(o) == Append(o.h, IF o.ok THEN o.n ELSE Something)
=============================================================================
