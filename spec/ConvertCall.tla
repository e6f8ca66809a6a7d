----------------------------- MODULE ConvertCall -----------------------------
(* Conversions called from Python: which parameters the calls have, with      *)
(* which defaults, and which conversion of the files s.files a call means.    *)
(* The particles of VTK files have named fields p.f.                          *)
EXTENDS Convert, Calling

IntList(s) == [t |-> "list", v |-> [k \in DOMAIN s |-> AInt(s[k])]]
FourColumns == D("columns", "ints", IntList(<<0, 1, 2, 3>>))
ABool(b) == [t |-> "bool", v |-> b]
TextParams == << D("delimiter", "str", AStr(",")), D("header", "bool", ABool(1)), D("comment", "str", AStr("#")),
                 D("vel", "bool", ABool(0)), D("interpolate", "bool", ABool(0)), D("radius", "float", AInt(0)) >>
VtkParams == << P("timestep", "float"), P("outname", "str"), D("filter", "str", [t |-> "str", v |-> "(\\d+).vtk", ext |-> "vtk"]),
                D("velocity_field_name", "str", AStr("v")), D("radius_field_name", "str", AStr("radius")),
                D("id_field_name", "str", AStr("id")), D("type_field_name", "str", AStr("type")), D("diameter_field_name", "name", ANone) >>
ParamsOf(m) ==
  CASE m = "csv" -> << P("filename", "str"), P("outname", "str"), FourColumns >> \o TextParams \o << D("sampling_steps", "count", AInt(9)) >>
    [] m = "csv_multi" -> << P("filename", "str"), P("outname", "str"), FourColumns >> \o TextParams \o << D("method", "str", AStr("chain")) >>
    [] m = "csv_multi_files" -> << P("filenames", "strs"), P("outname", "str"), P("times", "floats"), FourColumns >> \o TextParams
    [] m = "vtk" -> << P("filenames", "strs") >> \o VtkParams
    [] m = "vtk_from_folder" -> << P("folder", "str") >> \o VtkParams

ListOf(a, Ok(_)) == a.t \in {"list", "tuple"} /\ \A k \in 1..Len(a.v) : Ok(a.v[k])
HasType(ty, a) ==
  CASE ty = "str" -> a.t = "str"
    [] ty = "name" -> a.t \in {"str", "none"}
    [] ty = "strs" -> ListOf(a, LAMBDA x : x.t = "str")
    [] ty = "ints" -> ListOf(a, LAMBDA x : x.t = "int")
    [] ty = "floats" -> ListOf(a, IsNum)
    [] ty = "float" -> IsNum(a)
    [] ty = "bool" -> a.t = "bool"
    [] ty = "count" -> IsCount(a)

\* a flag of the call against the file: without a header, the first row is skipped
Headed(text, header) == IF header = 1 /\ text.header = 0 THEN [text EXCEPT !.rows = Tail(@)] ELSE text
FileOf(s, name) == s.files[CHOOSE k \in 1..Len(s.files) : s.files[k].name = name]
Present(s, name) == \E k \in 1..Len(s.files) : s.files[k].name = name
Values(a) == [k \in 1..Len(a.v) |-> a.v[k].v]
Nothing == [ok |-> FALSE]
\* a table is read with its delimiter, and with what its comments begin with
Readable(text, a) == a["delimiter"].v = text.delim /\ (text.notes # <<>> => a["comment"].v = text.comment)

TextMeant(s, a, mode) ==
  LET cols == Values(a["columns"])
      vel == a["vel"].v
      n == Len(cols)
  IN IF ~Present(s, a["filename"].v) \/ ~Readable(FileOf(s, a["filename"].v).text, a) THEN Nothing
     ELSE IF mode = "csv" /\ a["sampling_steps"].v % 2 = 0 THEN Nothing
     ELSE IF mode = "id_line" /\ n # (IF vel = 1 THEN 5 ELSE 8) THEN Nothing
     \* either velocities are given or they are computed
     ELSE IF mode # "id_line" /\ n # (IF vel = 1 THEN 4 ELSE 7) THEN Nothing
     ELSE IF mode = "chain" /\ a["interpolate"].v = 1 /\ vel = 0 THEN Nothing
     ELSE [ok |-> TRUE, mode |-> mode, text |-> Headed(FileOf(s, a["filename"].v).text, a["header"].v), columns |-> cols,
           vel |-> vel, interp |-> a["interpolate"].v, radius |-> NumOf(a["radius"]), means |-> s.means, back |-> 0,
           sampling |-> IF mode = "csv" THEN a["sampling_steps"].v ELSE 9]

StepsMeant(s, a) ==
  LET names == Values(a["filenames"])
  IN IF \E k \in 1..Len(names) : ~Present(s, names[k]) \/ ~Readable(FileOf(s, names[k]).text, a) THEN Nothing
     ELSE IF Len(a["columns"].v) \notin {4, 7} \/ Len(a["times"].v) < Len(names) THEN Nothing
     ELSE [ok |-> TRUE, mode |-> "steps", files |-> [k \in 1..Len(names) |-> Headed(FileOf(s, names[k]).text, a["header"].v)],
           times |-> [k \in 1..Len(names) |-> NumOf(a["times"].v[k])], columns |-> Values(a["columns"]),
           vel |-> 0, interp |-> 0, radius |-> NumOf(a["radius"]), means |-> 1, back |-> 0]

\* legacy files hold polygons, unstructured grids and polygons are two kinds of XML files
Content(ext) == CASE ext = "vtk" -> {"legacy"} [] ext = "vtu" -> {"grid"} [] ext = "vtp" -> {"poly"}
VtkMeant(s, a, names, folder) ==
  LET ext == a["filter"].ext
      size == IF IsNone(a["diameter_field_name"]) THEN a["radius_field_name"].v ELSE a["diameter_field_name"].v
      fields == <<a["velocity_field_name"].v, size, a["id_field_name"].v, a["type_field_name"].v>>
      file(n) == FileOf(s, n)
      part(q) == [id |-> q.f[fields[3]], r |-> q.f[size], ty |-> q.f[fields[4]], p |-> q.p, v |-> q.f[fields[1]]]
      all == Joined(Joined([k \in 1..Len(names) |-> file(names[k]).pieces]))
  IN IF ext = "none" \/ names = <<>> \/ \E k \in 1..Len(names) : ~Present(s, names[k]) THEN Nothing
     ELSE IF \E k \in 1..Len(names) : file(names[k]).ext # ext \/ file(names[k]).content \notin Content(ext) THEN Nothing
     ELSE IF \E k \in 1..Len(all) : \E x \in 1..4 : fields[x] \notin DOMAIN all[k].f THEN Nothing
     ELSE [ok |-> TRUE, mode |-> IF ext = "vtk" THEN "legacy" ELSE "xml", dt |-> NumOf(a["timestep"]), vel |-> 0, interp |-> 0, means |-> 1, back |-> 0,
           folder |-> folder, diameter |-> IF IsNone(a["diameter_field_name"]) THEN 0 ELSE 1, types |-> 1,
           files |-> [k \in 1..Len(names) |->
                        [step |-> file(names[k]).step,
                         pieces |-> [j \in 1..Len(file(names[k]).pieces) |->
                                       LET q == file(names[k]).pieces[j] IN [m \in 1..Len(q) |-> part(q[m])]]]]]

\* files of a folder: those of the ending legacy files have, or of any VTK file
InFolder(s, folder, ext) ==
  LET fs == SelectSeq(s.files, LAMBDA f : f.folder = folder /\ ~f.other /\ (ext # "vtk" \/ f.ext = "vtk")) IN [k \in 1..Len(fs) |-> fs[k].name]

Meant(s) ==
  LET c == s.call
      ps == ParamsOf(c.c)
  IN IF ~Bindable(ps, c) THEN Nothing
     ELSE LET a == Args(ps, c)
          IN IF \E k \in 1..Len(ps) : ~HasType(ps[k].ty, a[ps[k].n]) THEN Nothing
             ELSE CASE c.c = "csv" -> TextMeant(s, a, "csv")
                    [] c.c = "csv_multi" -> IF a["method"].v \in {"chain", "id_line"} THEN TextMeant(s, a, a["method"].v) ELSE Nothing
                    [] c.c = "csv_multi_files" -> StepsMeant(s, a)
                    [] c.c = "vtk" -> VtkMeant(s, a, Values(a["filenames"]), 0)
                    [] c.c = "vtk_from_folder" -> VtkMeant(s, a, InFolder(s, a["folder"].v, a["filter"].ext), 1)
\* the file that is written
Written(s) == LET m == Meant(s) IN IF ~m.ok THEN Nothing ELSE Judged(m, Converted(m))
\* and what of another is judged
Seen(s, o) == LET m == Meant(s) IN IF ~m.ok THEN o ELSE Judged(m, o)
=============================================================================
