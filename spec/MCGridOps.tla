----------------------------- MODULE MCGridOps -----------------------------
(* Exhaustive check of the grid store: every history of up to Depth grid      *)
(* operations from an alphabet on a small grid.  The store is accompanied by  *)
(* what the property talks about (the sum deposited so far), and every step   *)
(* is checked against what its operation may change.  With EMIT set, every    *)
(* complete history is printed as a session for the implementation.           *)
EXTENDS GridStore, Json, IOUtils
CONSTANTS Depth, Kinds, Alphabet, Inits

VARIABLES g, init, hist, st, prev, sum, cnt
vars == <<g, init, hist, st, prev, sum, cnt>>

CartG == [kind |-> "cart", cells |-> <<2, 1, 2>>, lim |-> << <<0, 4>>, <<0, 2>>, <<0, 4>> >>]
CylG == [kind |-> "cyl", cells |-> <<2, 2, 1>>, lim |-> << <<-3, 3>>, <<-3, 3>>, <<0, 2>> >>]

\* a place in the first cell, a place in another cell, on a limit, outside, undefined
Place(gr) == IF gr.kind = "cart" THEN << <<1, 1, 1>>, <<3, 1, 3>>, <<2, 1, 4>>, <<5, 1, 1>>, <<UNDEF, 1, 1>> >>
             ELSE << <<1, -1, 1>>, <<2, 1, 1>>, <<-1, 2, 2>>, <<3, 3, 1>>, <<1, UNDEF, 1>> >>
One(gr, c) == IF gr.kind = "cart" THEN <<c \div 2, 0, c % 2>> ELSE <<c \div 2, c % 2, 0>>

Adds(gr) ==
  {[op |-> "add", pos |-> Place(gr)[k], v |-> v] : k \in 1..5, v \in {R(2), R(-1)}}
  \cup {[op |-> "addcell", cell |-> One(gr, 1), v |-> R(3)]}
Trajs(gr) == {[op |-> "traj", pos |-> Place(gr)[a], pos2 |-> Place(gr)[b], v |-> R(2)] : a \in 1..4, b \in {1, 2, 4, 5}}
Inserts(gr) == {[op |-> "insert", pos |-> Place(gr)[k], v |-> v] : k \in {2, 4}, v \in {R(5), NaN}}
Divs == {[op |-> "divscalar", v |-> R(-2)], [op |-> "divweight"],
         [op |-> "divarray", arr |-> <<R(1), R(2), R(-1), R(4)>>]}
Sets == {[op |-> "setdata", arr |-> <<R(4), NaN, R(-1), R(9)>>], [op |-> "setweights", arr |-> <<R(2), R(0), R(1), R(3)>>]}
Misc == {[op |-> "zeros"], [op |-> "refused", what |-> "data", mode |-> 3], [op |-> "refused", what |-> "weights", mode |-> 3]}
Outs == {[op |-> "outlier", mode |-> m, v |-> v] : m \in 0..2, v \in {R(0), R(3)}}
        \cup {[op |-> "refused", what |-> "mode", mode |-> 3]}
Looks(gr) ==
  {[op |-> "observe", what |-> w, a |-> a, b |-> (a % 3) + 1, i |-> gr.cells[a] - 1, x |-> 0] : w \in {"collapse", "cw", "c2", "c2w", "sliceidx"}, a \in 1..3}
  \cup {[op |-> "observe", what |-> "slice", a |-> a, b |-> 1, i |-> 0, x |-> x] :
          a \in (IF gr.kind = "cart" THEN {1, 3} ELSE {3}), x \in (IF gr.kind = "cart" THEN {0, 1, 2, 3, 4} ELSE {0, 1, 2})}

Ops(gr) ==
  CASE Alphabet = "store" -> Adds(gr) \cup Trajs(gr) \cup Inserts(gr) \cup Divs \cup Sets \cup Misc
    [] Alphabet = "views" -> {[op |-> "add", pos |-> Place(gr)[2], v |-> R(2)], [op |-> "divweight"]} \cup Sets \cup Looks(gr)
    [] Alphabet = "outliers" -> {[op |-> "add", pos |-> Place(gr)[2], v |-> R(2)]} \cup Sets \cup Outs

Full == [val |-> <<R(1), R(7), NaN, R(-2)>>, wt |-> <<R(1), R(2), R(0), R(4)>>]
Start(gr) == IF Inits = "empty" THEN {EmptyStore(gr)} ELSE {EmptyStore(gr), Full}

Total(s) == RSum(s.val)
Weight(s) == RSum(s.wt)

Init ==
  /\ g \in (IF "cart" \in Kinds THEN {CartG} ELSE {}) \cup (IF "cyl" \in Kinds THEN {CylG} ELSE {})
  /\ init \in Start(g) /\ st = init /\ prev = init /\ hist = <<>>
  /\ sum = Total(init) /\ cnt = Weight(init)

\* what an operation deposits according to its description
Deposit(o) ==
  CASE o.op = "add" -> IF Inside(g, o.pos) THEN <<o.v, ROne>> ELSE <<RZero, RZero>>
    [] o.op = "addcell" -> <<o.v, ROne>>
    [] o.op = "traj" ->
         IF (g.kind = "cart" /\ Inside(g, o.pos) /\ Inside(g, o.pos2)) \/ (g.kind = "cyl" /\ Inside(g, o.pos)) THEN <<o.v, ROne>>
         ELSE <<RZero, RZero>>

Next ==
  \E o \in Ops(g) :
    /\ Len(hist) < Depth
    /\ st' = Apply(g, st, o) /\ prev' = st /\ hist' = Append(hist, o)
    /\ IF o.op \in {"add", "addcell", "traj"}
         THEN sum' = RAdd(sum, Deposit(o)[1]) /\ cnt' = RAdd(cnt, Deposit(o)[2])
       ELSE IF o.op \in {"observe", "refused"} THEN UNCHANGED <<sum, cnt>>
       ELSE IF o.op = "zeros" THEN sum' = RZero /\ cnt' = RZero
       ELSE IF o.op = "divscalar" THEN sum' = RDiv(sum, o.v) /\ UNCHANGED cnt
       ELSE sum' = Total(st') /\ (IF o.op \in {"insert", "divarray", "divweight", "setdata"} THEN UNCHANGED cnt ELSE cnt' = Weight(st'))
    /\ UNCHANGED <<g, init>>

-----------------------------------------------------------------------------
TypeOK == Len(st.val) = NCells(g) /\ Len(st.wt) = NCells(g)

\* nothing is lost or invented
Conserved == sum = Total(st) /\ cnt = Weight(st)

L == hist[Len(hist)]
ChangedVal == {c \in 1..NCells(g) : st.val[c] # prev.val[c]}
ChangedWt == {c \in 1..NCells(g) : st.wt[c] # prev.wt[c]}
Changed == ChangedVal \cup ChangedWt
OnlyItsCells ==
  hist # <<>> =>
    CASE L.op \in {"add", "insert"} -> Changed \subseteq {CellNo(g, L.pos)}
      [] L.op = "addcell" -> Changed = {Flat(g, L.cell)}
      [] L.op = "traj" -> Changed \subseteq {CellNo(g, L.pos), CellNo(g, L.pos2)}
      [] L.op \in {"observe", "refused"} -> Changed = {}
      [] L.op \in {"divscalar", "divarray", "divweight", "setdata"} -> ChangedWt = {}
      [] L.op = "setweights" -> ChangedVal = {}
      [] L.op = "zeros" -> st = EmptyStore(g)
      [] L.op = "outlier" ->
           LET out == {c \in 1..NCells(g) : RGt(prev.val[c], L.v)}
           IN /\ Changed \subseteq out
              /\ L.mode \in {0, 1} => ChangedWt = {}
              /\ L.mode = 1 => \A c \in 1..NCells(g) : ~RGt(st.val[c], L.v)
              \* replaced values lie between those they average
              /\ L.mode = 2 => \A c \in out :
                   LET ns == {d \in Around(g, c) : g.kind = "cyl" \/ d \notin out}
                   IN (ns # {} /\ \A d \in ns : IsFin(prev.val[d])) =>
                        /\ \E d \in ns : RLe(prev.val[d], st.val[c])
                        /\ \E d \in ns : RLe(st.val[c], prev.val[d])

-----------------------------------------------------------------------------
\* the views
Clean(s) == [s EXCEPT !.val = [c \in DOMAIN @ |-> NoNaN(@[c])]]
Views ==
  \A a \in 1..3 :
    LET v == Collapse(g, st, a) w == CollapseW(g, st, a)
        lines == [k \in DOMAIN v |-> {Line(g, a, PlaneCells(g, a)[k])[i] : i \in 1..g.cells[a]}]
    IN /\ RSum(w) = Weight(st)
       /\ UNION {lines[k] : k \in DOMAIN lines} = 1..NCells(g)
       \* a line without weight has no mean, otherwise the mean lies between its values
       /\ \A k \in DOMAIN v :
            IF w[k] = RZero THEN v[k][2] = 0
            ELSE (\A c \in lines[k] : IsFin(NoNaN(st.val[c])) /\ st.wt[c][1] >= 0) =>
                   /\ \E c \in lines[k] : RLe(NoNaN(st.val[c]), v[k])
                   /\ \E c \in lines[k] : RLe(v[k], NoNaN(st.val[c]))
       \* slices put the grid back together
       /\ UNION {{<<Line(g, a, PlaneCells(g, a)[k])[i + 1], SliceIdx(g, st, a, i)[k]>> : k \in DOMAIN v} : i \in 0..(g.cells[a] - 1)}
            = {<<c, st.val[c]>> : c \in 1..NCells(g)}
       /\ \A b \in {1, 2, 3} \ {a} :
            /\ CollapseTwo(g, st, a, b) = CollapseTwo(g, st, b, a)
            /\ CollapseTwoW(g, st, a, b) = CollapseTwoW(g, st, b, a)
            /\ RSum(CollapseTwoW(g, st, a, b)) = Weight(st)
            \* collapsing twice weighs every cell as collapsing at once
            /\ LET c == CHOOSE x \in {1, 2, 3} : x # a /\ x # b
                   plane(k) == {f \in 1..NCells(g) : Unflat(g, f)[c] = k - 1}
                   vw == [f \in 1..NCells(g) |-> RMul(NoNaN(st.val[f]), st.wt[f])]
               IN \A k \in 1..g.cells[c] :
                    ((\A f \in plane(k) : IsFin(st.wt[f]) /\ IsFin(NoNaN(st.val[f]))) /\ CollapseTwoW(g, st, a, b)[k] # RZero
                     /\ \A x \in DOMAIN w : w[x] # RZero)
                    => CollapseTwo(g, st, a, b)[k] = RDiv(RSumOver(vw, plane(k)), CollapseTwoW(g, st, a, b)[k])

-----------------------------------------------------------------------------
Session == [kind |-> "ops", g |-> g, vector |-> 0, init |-> <<init>>, ops |-> hist, u |-> "1", off |-> <<"0", "0", "0">>]
Emit == (Len(hist) = Depth /\ "EMIT" \in DOMAIN IOEnv) => PrintT("SESSION " \o ToJson(Session))
=============================================================================
