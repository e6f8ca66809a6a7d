----------------------------- MODULE MCSequence -----------------------------
(* Sequences of calculations on one dataset (C21).  A call finds the grid it  *)
(* is passed clean or in use (dirty); it works on a zeroed grid of the same   *)
(* geometry and leaves dataset and grid as they were.  The results depend on  *)
(* neither the calls before nor the grid's content, the particles may be in   *)
(* any order, and disjoint time windows add up.                               *)
EXTENDS Analyses, Json, IOUtils
CONSTANTS Depth

VARIABLES g, ds, perm, hist, res
vars == <<g, ds, perm, hist, res>>

CartG == [kind |-> "cart", cells |-> <<2, 1, 1>>, lim |-> << <<0, 4>>, <<0, 2>>, <<0, 2>> >>]
CylG == [kind |-> "cyl", cells |-> <<1, 2, 1>>, lim |-> << <<-3, 3>>, <<-3, 3>>, <<0, 2>> >>]
Place(gr, k) == IF gr.kind = "cart" THEN << <<1, 1, 1>>, <<3, 1, 2>>, <<5, 1, 1>>, <<UNDEF, 1, 1>> >>[k]
                ELSE << <<0, -2, 1>>, <<0, 2, 2>>, <<3, 3, 1>>, <<1, UNDEF, 1>> >>[k]
V == << <<0, 0, 0>>, <<3, 4, 0>>, <<-1, 0, 0>>, <<3, UNDEF, 4>> >>
\* places and velocities of three particles at three steps
Data == << << <<11, 22, 31>>, <<12, 21, 23>>, <<42, 12, 13>> >>,
           << <<12, 12, 12>>, <<22, 32, 44>>, <<12, 14, 23>> >>,
           << <<13, 21, 42>>, <<13, 13, 22>>, <<31, 22, 13>> >> >>
Part(gr, k, code, j) == [p |-> Place(gr, code \div 10), v |-> V[code % 10], r |-> IF j = 3 THEN 2 ELSE 1, c |-> 0, d |-> 1, id |-> j, ty |-> j]
Perms == << <<1, 2, 3>>, <<3, 1, 2>> >>
Steps(gr, d, p) == [m \in 1..3 |-> [t |-> 2 * m - 2, parts |-> [j \in 1..3 |-> Part(gr, m, Data[d][m][p[j]], p[j])]]]
DataSet(gr, d, p) == [steps |-> Steps(gr, d, p), dims |-> << <<-50, 50>>, <<-50, 50>>, <<-50, 50>> >>, vmag |-> <<0, 3, 10>>]

Sel(w) == [radius |-> <<1>>, clouds |-> <<-1>>, density |-> <<-1>>, ids |-> <<0>>,
           time |-> CASE w = "all" -> <<-1, 9>> [] w = "first" -> <<-1, 2>> [] w = "rest" -> <<3, 9>>]
Args == [velocity |-> [mode |-> "absolute", vmin |-> -100, vmax |-> 100], number |-> [lag |-> 0], occupancy |-> [vmin |-> 0],
         gtemp |-> [mode |-> "xyz"], dispersion |-> [lag |-> 2], msdfield |-> [lag |-> 2], concentration |-> [ta |-> 1, tb |-> 2],
         lacey |-> [ta |-> 1, tb |-> 2, thr |-> 0], histogram |-> [prop |-> "velocity", vmax |-> 5, bins |-> 5]]
Kinds == DOMAIN Args
Call(k, w, d) == Args[k] @@ [op |-> k, g |-> g, sel |-> Sel(w), dirty |-> d]

Result(o, x) == FoldLeft(LAMBDA a, m : IF o.op = "lacey" \/ StepSelected(o, x.steps[m]) THEN Consume(o, x, a, m) ELSE a, Begin(o, x), <<1, 2, 3>>)

Init == g \in {CartG, CylG} /\ \E d \in 1..3 : perm \in {1, 2} /\ ds = DataSet(g, d, Perms[perm]) /\ hist = <<>> /\ res = <<>>
Next ==
  /\ Len(hist) < Depth
  /\ \E k \in Kinds, w \in {"all", "first", "rest"}, d \in {0, 1} :
       LET o == Call(k, w, d) IN hist' = Append(hist, o) /\ res' = Append(res, Result(o, ds))
  /\ UNCHANGED <<g, ds, perm>>

\* ordered like the records of the first permutation
Original == [ds EXCEPT !.steps = [m \in 1..3 |-> [@[m] EXCEPT !.parts = SortSeq(@, LAMBDA a, b : a.id < b.id)]]]
L == Len(hist)
Fresh == hist # <<>> => res[L] = Result(hist[L], Original)
Same(o, q) == [o EXCEPT !.dirty = 0] = [q EXCEPT !.dirty = 0]
Repeatable == \A m \in 1..L : Same(hist[m], hist[L]) => res[m] = res[L]
Cells == 1..NCells(g)
AddUp ==
  \A m \in 1..L :
    (hist[m].op = hist[L].op /\ hist[m].op \in FieldOps /\ {hist[m].sel.time, hist[L].sel.time} = {<<-1, 2>>, <<3, 9>>}) =>
      LET whole == Result([hist[m] EXCEPT !.sel = Sel("all")], ds)
      IN /\ whole.total = RAdd(res[m].total, res[L].total)
         /\ \A s \in DOMAIN whole.st, c \in Cells :
              /\ whole.st[s].val[c] = RAdd(res[m].st[s].val[c], res[L].st[s].val[c])
              /\ whole.st[s].wt[c] = RAdd(res[m].st[s].wt[c], res[L].st[s].wt[c])
\* a restricted selection never adds samples
Fewer ==
  (hist # <<>> /\ hist[L].op \in FieldOps) =>
    LET whole == Result([hist[L] EXCEPT !.sel = [default |-> 1]], ds)
    IN \A s \in DOMAIN whole.st, c \in Cells : RLe(res[L].st[s].wt[c], whole.st[s].wt[c])

Session == [kind |-> "analysis", u |-> "1", uv |-> "1", ut |-> "1", off |-> <<"0", "0", "0">>, ds |-> ds, ops |-> hist]
Emit == (L = Depth /\ "EMIT" \in DOMAIN IOEnv) => PrintT("SESSION " \o ToJson(Session))
=============================================================================
