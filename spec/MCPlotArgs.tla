------------------------------ MODULE MCPlotArgs ------------------------------
(* Every combination of the arguments of a plot, with one wrong argument at   *)
(* most: exactly the sensible calls are accepted, and what a call does not    *)
(* use makes no difference to what it shows.                                  *)
EXTENDS Interface, IOUtils
Methods == <<"quiver_plot", "unit_vector_plot", "scalar_map", "scalar_contour", "parity_plot", "parity_map", "parity_contour">>

VARIABLES a, k, done
vars == <<a, k, done>>

File == [name |-> "a.h5", mgr |-> "t", type |-> 1,
         ds |-> [steps |-> << [t |-> 0, parts |-> << [p |-> <<1, 1, 1>>, v |-> <<3, 4, 0>>, r |-> 1, c |-> 0, d |-> 1, id |-> 1, ty |-> 1],
                                                     [p |-> <<3, 3, 3>>, v |-> <<0, -8, 6>>, r |-> 1, c |-> 0, d |-> 1, id |-> 2, ty |-> 1] >>] >>,
                 dims |-> << <<0, 4>>, <<0, 4>>, <<0, 4>> >>, vmag |-> <<5, 7, 10>>]]
Do(on, name, pos, kw) == [c |-> name, on |-> on, pos |-> pos, kw |-> kw]
Ref(j) == [t |-> "ref", v |-> j]
NoKw == <<>>
Prefix == << Do(0, "Data", <<AStr("a.h5")>>, NoKw),
             Do(0, "Grid", <<Ref(1), [t |-> "list", v |-> <<AInt(2), AInt(2), AInt(2)>>]>>, NoKw),
             Do(1, "numberfield", <<Ref(2)>>, NoKw), Do(1, "vectorfield", <<Ref(2)>>, NoKw),
             Do(0, "Plotter2D", <<Ref(3)>>, NoKw), Do(0, "Plotter2D", <<Ref(4)>>, NoKw) >>
RECURSIVE Made(_)
Made(n) == IF n = 0 THEN <<>> ELSE After(Outcome(Made(n - 1), <<File>>, Prefix[n]))
H == Made(Len(Prefix))

Names == << "method", "plotter", "axis", "selection", "index", "scaling_mode", "min_size", "max_size", "colour_map", "comparison_grid" >>
ScalingOf(m) == m \in {"quiver_plot", "unit_vector_plot"}
ParityOf(m) == m \in {"parity_plot", "parity_map", "parity_contour"}
ColourOf(m) == m # "parity_plot"
Absent == [t |-> "absent"]
\* the values of an argument, the absent one first
Values(x, m) ==
  CASE x = "method" -> Methods
    [] x = "plotter" -> <<5, 6>>
    [] x = "axis" -> << AInt(0), AInt(2), AInt(3), Absent >>
    [] x = "selection" -> << Absent, AStr("plane"), AStr("depth_average"), AStr("Plane") >>
    [] x = "index" -> << Absent, AInt(0), AInt(1), AInt(2) >>
    [] x = "scaling_mode" -> IF ScalingOf(m) THEN << Absent, AStr("min"), AStr("max"), AStr("minmax"), AStr("half_node"), AStr("full_node"), AStr("Min") >> ELSE <<Absent>>
    [] x = "min_size" -> IF ScalingOf(m) THEN << Absent, AInt(6) >> ELSE <<Absent>>
    [] x = "max_size" -> IF ScalingOf(m) THEN << Absent, AInt(7) >> ELSE <<Absent>>
    [] x = "colour_map" -> IF ColourOf(m) THEN << Absent, [t |-> "str", v |-> "Viridis", low |-> "viridis"], [t |-> "str", v |-> "rainbow_road", low |-> "rainbow_road"] >> ELSE <<Absent>>
    [] x = "comparison_grid" -> IF ParityOf(m) THEN << Ref(3), Ref(4), AInt(1) >> ELSE <<Absent>>
Wrong(x, v) == \/ x = "axis" /\ v \in {AInt(3), Absent}
               \/ x = "selection" /\ v = AStr("Plane")
               \/ x = "index" /\ v = AInt(2)
               \/ x = "scaling_mode" /\ v = AStr("Min")
               \/ x = "colour_map" /\ v.t = "str" /\ v.v = "rainbow_road"
               \/ x = "comparison_grid" /\ v = AInt(1)
M == Methods[a[1]]
Arg(x) == LET p == CHOOSE j \in 1..Len(Names) : Names[j] = x IN Values(x, M)[a[p]]

Init == a = <<>> /\ k = 1 /\ done = 0
Spoilt(upto) == \E j \in 3..upto : Wrong(Names[j], Arg(Names[j]))
Choose ==
  /\ k <= Len(Names) /\ k' = k + 1 /\ done' = 0
  /\ IF k = 1 THEN \E c \in 1..Len(Methods) : a' = <<c>>
     ELSE \E c \in 1..Len(Values(Names[k], M)) :
            /\ k > 2 /\ Wrong(Names[k], Values(Names[k], M)[c]) => ~Spoilt(k - 1)
            /\ a' = Append(a, c)
Make == k > Len(Names) /\ done = 0 /\ done' = 1 /\ UNCHANGED <<a, k>>
Next == Choose \/ Make

Vec == a[2] = 2
CallWith(names) == Do(Arg("plotter"), M, <<>>, [x \in {y \in names : Arg(y) # Absent} |-> Arg(x)])
All == {Names[j] : j \in 3..Len(Names)}
Call == CallWith(All)
Of(c) == Outcome(H, <<File>>, c)
Result == Of(Call)

-----------------------------------------------------------------------------
Has(x) == Arg(x) # Absent
AtPlane == Has("selection") /\ Arg("selection").v = "plane"
Mode == IF Has("scaling_mode") THEN Arg("scaling_mode").v ELSE "off"
Sensible ==
  /\ Has("axis") /\ Arg("axis").v < 3
  /\ Has("selection") => Arg("selection").v # "Plane"
  /\ AtPlane => Has("index") /\ Arg("index").v < 2
  /\ Mode # "Min"
  /\ Mode \in {"min", "minmax"} => Has("min_size")
  /\ Mode \in {"max", "minmax"} => Has("max_size")
  /\ Has("colour_map") => Arg("colour_map").v # "rainbow_road"
  /\ ScalingOf(M) => Vec
  /\ ParityOf(M) => Arg("comparison_grid") = Ref(IF Vec THEN 4 ELSE 3)
Refusals == done = 1 => Result.ok = Sensible
\* sizes without a mode, an index without a plane and the other bound of a mode are ignored
Used == {"axis", "selection", "scaling_mode", "colour_map", "comparison_grid"}
        \cup (IF AtPlane THEN {"index"} ELSE {})
        \cup (IF Mode \in {"min", "minmax"} THEN {"min_size"} ELSE {}) \cup (IF Mode \in {"max", "minmax"} THEN {"max_size"} ELSE {})
Ignored == done = 1 /\ Result.ok => Of(CallWith(Used)) = Result
\* the colours of the map that was asked for, in every part of the figure
ColoursIn(f) == {f.maps[j].cm : j \in 1..Len(f.maps)} \cup (IF f.maps = <<>> THEN {f.arrows[j].cm : j \in 1..Len(f.arrows)} ELSE {})
Coloured == done = 1 /\ Result.ok /\ ColourOf(M) => ColoursIn(Result.e) = {IF Has("colour_map") THEN "viridis" ELSE "none"}
Emit == (done = 1 /\ "EMIT" \in DOMAIN IOEnv) =>
          PrintT("SESSION " \o ToJson([kind |-> "python", files |-> <<File>>, calls |-> Append(Prefix, Call)]))
=============================================================================
