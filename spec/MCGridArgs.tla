------------------------------ MODULE MCGridArgs ------------------------------
(* Every combination of the arguments of a grid: a region is determined by    *)
(* data, by six limits or by one pair per axis, and a number of cells by a    *)
(* list or by the size of a cell.  Whatever else is refused.                  *)
EXTENDS Interface, IOUtils

VARIABLES a, k, done
vars == <<a, k, done>>
Names == << "data", "limits", "xlim", "ylim", "zlim", "num_cells", "cell_size", "grid_style" >>

L(s) == [t |-> "list", v |-> [j \in DOMAIN s |-> AInt(s[j])]]
HalfCell == [t |-> "num", v |-> <<1, 2>>]
Values(x) ==
  CASE x = "data" -> << ANone, [t |-> "ref", v |-> 1], AInt(5) >>
    [] x = "limits" -> << ANone, L(<<-2, 2, 0, 6, 1, 5>>), L(<<-2, 2, 0, 6, 1>>) >>
    [] x = "xlim" -> << ANone, L(<<2, 6>>), L(<<6, 2>>), L(<<2>>) >>
    [] x = "ylim" -> << ANone, L(<<-1, 3>>) >>
    [] x = "zlim" -> << ANone, [t |-> "array", v |-> <<AInt(-6), AInt(-2)>>] >>
    [] x = "num_cells" -> << L(<<2, 3, 1>>), ANone, L(<<2, 3>>) >>
    [] x = "cell_size" -> << ANone, [t |-> "list", v |-> <<HalfCell, AInt(2), AInt(4)>>] >>
    [] x = "grid_style" -> << AStr("cartesian"), AStr("cylindrical"), AStr("polar") >>

File == [name |-> "a.h5", mgr |-> "t", type |-> 1,
         ds |-> [steps |-> << [t |-> 0, parts |-> <<>>] >>, dims |-> << <<1, 5>>, <<-3, 1>>, <<0, 4>> >>, vmag |-> <<0, 3, 10>>]]
H == << DataObj(File) >>

Init == a = <<>> /\ k = 1 /\ done = 0
Bad(x, c) == (x \in {"data", "limits", "num_cells", "grid_style"} /\ c = 3) \/ (x = "xlim" /\ c > 2)
\* one wrong argument at most
Choose ==
  /\ k <= Len(Names) /\ k' = k + 1 /\ done' = 0
  /\ \E c \in 1..Len(Values(Names[k])) :
       /\ Bad(Names[k], c) => \A j \in 1..(k - 1) : ~Bad(Names[j], a[j])
       /\ a' = Append(a, c)
Make == k > Len(Names) /\ done = 0 /\ done' = 1 /\ UNCHANGED <<a, k>>
Next == Choose \/ Make

Arg(x) == LET p == CHOOSE j \in 1..Len(Names) : Names[j] = x IN Values(x)[a[p]]
Is(x, c) == LET p == CHOOSE j \in 1..Len(Names) : Names[j] = x IN a[p] = c
Kw == [x \in {Names[j] : j \in 1..Len(Names)} |-> Arg(x)]
Call == [c |-> "Grid", on |-> 0, pos |-> <<>>, kw |-> Kw]
Result == Outcome(H, <<File>>, Call)

-----------------------------------------------------------------------------
Wrong == \E j \in 1..Len(Names) : Bad(Names[j], a[j])
Single == {x \in {"xlim", "ylim", "zlim"} : ~Is(x, 1)}
Region == (IF Is("data", 2) THEN {"data"} ELSE {})
          \cup (IF Is("limits", 2) THEN {"limits"} ELSE {}) \cup (IF Single = {"xlim", "ylim", "zlim"} THEN {"pairs"} ELSE {})
\* axis d, from what is asked for
Wanted(d) == IF Is("limits", 2) THEN << <<-2, 2>>, <<0, 6>>, <<1, 5>> >>[d]
             ELSE IF <<"xlim", "ylim", "zlim">>[d] \in Single THEN << <<2, 6>>, <<-1, 3>>, <<-6, -2>> >>[d]
             ELSE File.ds.dims[d]
Determined == "data" \in Region \/ (Cardinality(Region) = 1 /\ (Is("limits", 2) => Single = {}))
Counted == ~Is("num_cells", 2) \/ Is("cell_size", 2)

Refusals == done = 1 => Result.ok = (~Wrong /\ Determined /\ Counted)
Grids ==
  done = 1 /\ Result.ok =>
    LET g == Result.n.g
    IN /\ \A d \in 1..3 : g.lim[d] = Wanted(d)
       /\ g.kind = IF Is("grid_style", 1) THEN "cart" ELSE "cyl"
       /\ IF Is("cell_size", 1) THEN g.cells = <<2, 3, 1>>
          ELSE \A d \in 1..3 : \* as many cells of this size as fit
                 LET ext == 2 * (g.lim[d][2] - g.lim[d][1]) w == <<1, 4, 8>>[d]
                 IN g.cells[d] * w <= ext /\ ext < (g.cells[d] + 1) * w
       /\ \A c \in 1..NCells(g) : Result.n.st.val[c] = RZero /\ Result.n.st.wt[c] = RZero
Emit == (done = 1 /\ "EMIT" \in DOMAIN IOEnv) =>
          PrintT("SESSION " \o ToJson([kind |-> "python", files |-> <<File>>,
            calls |-> << [c |-> "Data", on |-> 0, pos |-> <<AStr("a.h5")>>, kw |-> <<>>], Call >>]))
=============================================================================
