----------------------------- MODULE MCConvertArgs -----------------------------
(* Every call of a conversion in which few arguments are other than in an     *)
(* ordinary one: left out, given as the default, other, wrong, or of a wrong  *)
(* type.  What is left out is its default, names and positions mean the same, *)
(* an argument decides what it is about and nothing else.                     *)
EXTENDS ConvertCall, Json, IOUtils

CONSTANTS MaxOff        \* arguments other than in the ordinary call
VARIABLES m, a, k, done
vars == <<m, a, k, done>>
Calls == << "csv", "csv_multi", "csv_multi_files", "vtk", "vtk_from_folder" >>

(* -------- the files -------------------------------------------------------- *)
\* columns: time, position, velocity, number
Row(t, id) == << R(t), R(t), R(2 * t + 3 * id), R(2 * t), R(2), R(-1), R(2), R(id) >>
Rows(n) == [j \in 1..n |-> Row(j - 1, 0)]
Text(rows, delim, comment, notes) == [cols |-> 8, rows |-> rows, delim |-> delim, header |-> 1, comment |-> comment, notes |-> notes]
T(name, text) == [name |-> name, text |-> text]
Single1 == << T("data.csv", Text(Rows(11), ",", "#", <<3>>)), T("other.csv", Text(Rows(10), ";", "%", <<0>>)) >>
Several1 == << T("data.csv", Text(Rows(11) \o [j \in 1..11 |-> Row(j - 1, 4)], ",", "#", <<3>>)),
               T("other.csv", Text(Rows(10), ";", "%", <<0>>)) >>
\* a step has two particles
StepText(j, delim, comment, notes) ==
  Text([q \in 1..2 |-> << R(10 * q), R(j), R(q), R(j + q), R(2), R(1), R(-2), R(7) >>], delim, comment, notes)
StepFiles == << T("a 0.csv", StepText(0, ",", "#", <<>>)), T("a 1.csv", StepText(1, ",", "#", <<1>>)),
                T("b 0.csv", StepText(4, ";", "%", <<>>)), T("b 1.csv", StepText(6, ";", "%", <<1>>)) >>
\* the second step comes first by the letters of the names
Part(q, j) ==
  [p |-> << R(q), R(j), R(q + j) >>,
   f |-> [v |-> <<R(3), R(0), R(4)>>, vel |-> <<R(0), R(-2 * q), R(0)>>, id |-> R(q), pid |-> R(5 - q), type |-> R(2), kind |-> R(q + 7),
          radius |-> R(3), size |-> R(q), diameter |-> R(6)]]
Vtk(folder, ext, step) ==
  [name |-> folder \o "/p_" \o ToString(step) \o "." \o ext, folder |-> folder, ext |-> ext, step |-> step, other |-> FALSE,
   content |-> CASE ext = "vtk" -> "legacy" [] ext = "vtu" -> "grid" [] ext = "vtp" -> "poly",
   pieces |-> << << Part(2, step), Part(1, step) >> >>, names |-> << "diameter", "id", "kind", "pid", "radius", "size", "type", "v", "vel" >>,
   vectors |-> <<"v", "vel">>, ints |-> <<"id", "pid", "type", "kind">>, wide |-> 0]
VtkFilesOf == << Vtk("in", "vtk", 10), Vtk("in", "vtk", 9), Vtk("out", "vtu", 3), Vtk("out", "vtu", 12), Vtk("all", "vtp", 1) >>
Files == CASE Calls[m] = "csv" -> Single1 [] Calls[m] = "csv_multi" -> Several1 [] Calls[m] = "csv_multi_files" -> StepFiles [] OTHER -> VtkFilesOf

(* -------- the arguments: the first is the ordinary one -------------------- *)
Absent == [t |-> "absent"]
In(s) == [t |-> "str", v |-> s, in |-> 1]
L(s) == [t |-> "list", v |-> s]
Ins(s) == L([j \in DOMAIN s |-> In(s[j])])
Tuple(s) == [t |-> "tuple", v |-> IntList(s).v]
Filter(s, ext) == [t |-> "str", v |-> s, ext |-> ext]
Name(default, other) == << Absent, AStr(default), AStr(other), AStr("nothing"), AInt(1) >>
All7 == IntList(<<0, 1, 2, 3, 4, 5, 6>>)
Mode == Calls[m]
Options(x) ==
  CASE x = "filename" -> << In("data.csv"), In("other.csv"), In("none.csv"), AInt(0) >>
    [] x = "outname" -> << AStr("converted.hdf5"), ANone >>
    [] x = "columns" -> IF Mode = "csv_multi_files" THEN << All7, Tuple(<<7, 3, 2, 1, 4, 5, 6>>), Absent, FourColumns.d, IntList(<<0, 1>>), AInt(7) >>
                        ELSE << Absent, FourColumns.d, All7, Tuple(<<0, 3, 1, 2>>), IntList(<<0, 7, 1, 2, 3>>),
                                IntList(<<0, 7, 3, 2, 1, 4, 5, 6>>), IntList(<<0, 1, 2>>), L(<<AStr("t")>>) >>
    [] x = "delimiter" -> << Absent, AStr(","), AStr(";"), AInt(0) >>
    [] x = "header" -> << Absent, ABool(1), AInt(1) >>
    [] x = "comment" -> << Absent, AStr("#"), AStr("%"), ANone >>
    [] x = "vel" -> IF Mode = "csv_multi_files" THEN << Absent, ABool(0), ANone >> ELSE << ABool(1), Absent, ABool(0), AStr("yes") >>
    [] x = "interpolate" -> IF Mode = "csv_multi_files" THEN << Absent, ABool(0), AInt(1) >> ELSE << Absent, ABool(0), ABool(1), AInt(1) >>
    [] x = "radius" -> << Absent, AInt(0), ANum(0), AInt(2), [t |-> "num", v |-> <<1, 2>>], AStr("2") >>
    [] x = "sampling_steps" -> << Absent, AInt(9), AInt(3), AInt(5), AInt(8), [t |-> "num", v |-> <<9, 2>>], AInt(-3) >>
    [] x = "method" -> << Absent, AStr("chain"), AStr("id_line"), AStr("chains"), ANone >>
    [] x = "filenames" ->
         IF Mode = "csv_multi_files" THEN << Ins(<<"a 0.csv", "a 1.csv">>), Ins(<<"a 1.csv", "a 0.csv">>), Ins(<<"b 0.csv", "b 1.csv">>), Ins(<<"a 1.csv">>),
                                             Ins(<<"a 0.csv", "c 1.csv">>), Ins(<<"a 0.csv", "b 1.csv">>), In("a 0.csv") >>
         ELSE << Ins(<<"in/p_9.vtk", "in/p_10.vtk">>), Ins(<<"in/p_10.vtk", "in/p_9.vtk">>), Ins(<<"out/p_3.vtu", "out/p_12.vtu">>),
                 [t |-> "tuple", v |-> <<In("all/p_1.vtp")>>], Ins(<<"in/p_9.vtk", "out/p_12.vtu">>), Ins(<<"in/p_9.vtk", "in/p_11.vtk">>), L(<<>>),
                 In("in/p_9.vtk") >>
    [] x = "times" -> << L(<<AInt(1), AInt(3)>>), L(<<AInt(0), [t |-> "num", v |-> <<1, 2>>], AInt(1)>>), L(<<AInt(5)>>), L(<<AStr("1"), AStr("3")>>), AInt(1) >>
    [] x = "folder" -> << In("in"), In("out"), In("all"), In("nowhere"), ANone >>
    [] x = "timestep" -> << [t |-> "num", v |-> <<1, 2>>], AInt(3), AStr("1") >>
    [] x = "filter" -> << Absent, Filter("(\\d+).vtk", "vtk"), Filter("p_(\\d+)\\.vtk$", "vtk"), Filter("(\\d+).vtu", "vtu"), Filter("p_(\\d+).vtp", "vtp"),
                          Filter("(\\d+)", "none"), ANone >>
    [] x = "velocity_field_name" -> Name("v", "vel")
    [] x = "radius_field_name" -> Name("radius", "size")
    [] x = "id_field_name" -> Name("id", "pid")
    [] x = "type_field_name" -> Name("type", "kind")
    [] x = "diameter_field_name" -> << Absent, ANone, AStr("diameter"), AStr("size"), AStr("nothing"), AInt(3) >>

Params == ParamsOf(Mode)
\* of a wrong type, or wrong by itself
Bad(j, c) ==
  LET x == Params[j].n
      steps == Mode = "csv_multi_files"
  IN c = Len(Options(x)) \/
     c \in (CASE x \in {"filename"} -> {3} [] x = "columns" -> IF steps THEN {5} ELSE {7} [] x = "sampling_steps" -> {5, 6} [] x = "method" -> {4}
              [] x = "filenames" -> IF steps THEN {5, 6} ELSE {2, 5, 6, 7} [] x = "times" -> {4} [] x = "folder" -> {4} [] x = "filter" -> {6}
              [] x \in {"velocity_field_name", "radius_field_name", "id_field_name", "type_field_name"} -> {4} [] x = "diameter_field_name" -> {5} [] OTHER -> {})
Off(c) == Cardinality({j \in 1..Len(c) : c[j] # 1})
Init == m \in 1..Len(Calls) /\ a = <<>> /\ k = 1 /\ done = 0
Choose ==
  /\ k <= Len(Params) /\ k' = k + 1 /\ UNCHANGED <<m, done>>
  /\ \E c \in 1..Len(Options(Params[k].n)) : 
       /\ c # 1 => Off(a) < MaxOff /\ \A j \in 1..Len(a) : ~Bad(j, a[j])
       /\ Bad(k, c) => Off(a) = 0
       /\ a' = Append(a, c)
Make == k > Len(Params) /\ done = 0 /\ done' = 1 /\ UNCHANGED <<m, a, k>>
Next == Choose \/ Make

Arg(j) == Options(Params[j].n)[a[j]]
Here == {j \in 1..Len(Params) : Arg(j).t # "absent"}
\* by position up to the first that is left out, by name from there on
Positional == CHOOSE n \in 0..Len(Params) : (\A j \in 1..n : j \in Here) /\ (n = Len(Params) \/ (n + 1) \notin Here)
Call(n) == [c |-> Mode, pos |-> [j \in 1..n |-> Arg(j)],
            kw |-> [x \in {Params[j].n : j \in Here \ (1..n)} |-> Arg(CHOOSE j \in Here : Params[j].n = x)]]
Session(call) == [kind |-> "pyconvert", files |-> Files, call |-> call, vel |-> 0, means |-> 1]
Ways == {0, Positional \div 2, Positional}
Result == Written(Session(Call(Positional)))

-----------------------------------------------------------------------------
Index(x) == CHOOSE j \in 1..Len(Params) : Params[j].n = x
Has(x) == \E j \in 1..Len(Params) : Params[j].n = x
Full(j) == IF Arg(j).t = "absent" THEN Params[j].d ELSE Arg(j)
Value(x) == Full(Index(x))

\* the same, however it is written; and with every default spelled out
Spelling ==
  done = 1 => /\ \A n \in Ways : Written(Session(Call(n))) = Result
              /\ Written(Session([c |-> Mode, pos |-> [j \in 1..Len(Params) |-> Full(j)], kw |-> <<>>])) = Result

\* a call is refused where an argument is wrong, or where two do not fit together
Wrong == \E j \in 1..Len(Params) : Bad(j, a[j]) /\ ~(Params[j].n = "radius_field_name" /\ a[j] = 4 /\ Value("diameter_field_name").t = "str")
Fits ==
  CASE Mode \in {"csv", "csv_multi"} ->
         LET own == Value("filename").v = "data.csv"
             cols == Len(Value("columns").v)
             computed == Value("vel").v = 1
             lines == Mode = "csv_multi" /\ Value("method").v = "id_line"
         IN /\ Value("delimiter").v = (IF own THEN "," ELSE ";") /\ Value("comment").v = (IF own THEN "#" ELSE "%")
            /\ cols = (IF lines THEN (IF computed THEN 5 ELSE 8) ELSE IF computed THEN 4 ELSE 7)
            /\ (Mode = "csv_multi" /\ ~lines /\ Value("interpolate").v = 1 => computed)
    [] Mode = "csv_multi_files" ->
         LET own == Value("filenames").v[1].v \in {"a 0.csv", "a 1.csv"}
             noted == \E j \in 1..Len(Value("filenames").v) : Value("filenames").v[j].v \in {"a 1.csv", "b 1.csv"}
         IN /\ Value("delimiter").v = (IF own THEN "," ELSE ";") /\ (noted => Value("comment").v = (IF own THEN "#" ELSE "%"))
            /\ Len(Value("times").v) >= Len(Value("filenames").v)
    [] OTHER ->
         LET kind == IF Mode = "vtk" THEN (CASE a[Index("filenames")] = 3 -> "vtu" [] a[Index("filenames")] = 4 -> "vtp" [] OTHER -> "vtk")
                     ELSE (CASE a[Index("folder")] = 2 -> "vtu" [] a[Index("folder")] = 3 -> "vtp" [] OTHER -> "vtk")
         IN Value("filter").ext = kind
Refusals == done = 1 => Result.ok = (~Wrong /\ Fits)

\* what the arguments decide
Radii(g) == {g.radius[j] : j \in 1..Len(g.radius)}
AllRadii == UNION {Radii(Result.groups[g]) : g \in 1..Len(Result.groups)}
Decides ==
  done = 1 /\ Result.ok =>
    IF Mode \in {"vtk", "vtk_from_folder"} THEN
      /\ \A g \in 1..Len(Result.groups) :
           LET dt == NumOf(Value("timestep"))
               files == {f \in 1..Len(VtkFilesOf) : VtkFilesOf[f].ext = Value("filter").ext}
           IN \E f \in files : Result.groups[g].time = RMul(R(VtkFilesOf[f].step), dt)
      /\ AllRadii = CASE Value("diameter_field_name").t = "str" -> (IF Value("diameter_field_name").v = "size" THEN {<<1, 2>>, R(1)} ELSE {R(3)})
                      [] OTHER -> IF Value("radius_field_name").v = "size" THEN {R(1), R(2)} ELSE {R(3)}
      /\ \A g \in 1..Len(Result.groups) :
           /\ Result.groups[g].velocity \in {<< <<R(3), R(0), R(4)>>, <<R(3), R(0), R(4)>> >>, << <<R(0), R(-2), R(0)>>, <<R(0), R(-4), R(0)>> >>,
                                              << <<R(0), R(-4), R(0)>>, <<R(0), R(-2), R(0)>> >>}
           /\ Result.groups[g].id = IF Value("id_field_name").v = "id" THEN <<R(1), R(2)>> ELSE <<R(3), R(4)>>
           /\ (Result.groups[g].velocity[1][1] = R(3)) = (Value("velocity_field_name").v = "v")
           /\ (Result.groups[g].particletype[1] = R(2)) = (Value("type_field_name").v = "type")
    ELSE /\ AllRadii = {NumOf(Value("radius"))}
         /\ Mode = "csv_multi_files" /\ Len(Value("columns").v) = 4 =>
              "vel" \notin DOMAIN Result /\ \A g \in 1..Len(Result.groups) : \A q \in DOMAIN Result.groups[g].velocity : Result.groups[g].velocity[q] = <<NaN, NaN, NaN>>
         /\ Mode = "csv_multi_files" => Result.axis = [j \in 1..Len(Value("filenames").v) |-> NumOf(Value("times").v[j])]
         \* half a window is lost at both ends
         /\ Mode = "csv" =>
              LET rows == IF Value("filename").v = "data.csv" THEN 11 ELSE 10
              IN Len(Result.axis) = IF Value("vel").v = 1 THEN rows - (Value("sampling_steps").v - 1) ELSE rows

Emit == (done = 1 /\ "EMIT" \in DOMAIN IOEnv) => PrintT("SESSION " \o ToJson(Session(Call(CHOOSE n \in Ways : ((Off(a) + a[Len(a)]) % 3 # 0) => n = Positional))))
=============================================================================
