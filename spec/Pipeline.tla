------------------------------ MODULE Pipeline ------------------------------
(* From measured data to results: conversions make data files, which are      *)
(* opened and analysed like recorded ones.  A session has input files; the    *)
(* data files there are at a time are fs.                                     *)
EXTENDS Interface
Cv == INSTANCE ConvertCall

Short(name) ==
  CASE name = "Converter.csv" -> "csv" [] name = "Converter.csv_multi" -> "csv_multi" [] name = "Converter.csv_multi_files" -> "csv_multi_files"
    [] name = "Converter.vtk" -> "vtk" [] name = "Converter.vtk_from_folder" -> "vtk_from_folder" [] OTHER -> ""
Converts(c) == c.on = 0 /\ Short(c.c) # ""

\* the recording a conversion writes, as it is read back; its numbers are whole here
Plain(r) == IF IsNaN(r) THEN UNDEF ELSE IF r[2] = 1 THEN r[1] ELSE Assert(FALSE, "not whole")
Triple(p) == [x \in 1..3 |-> Plain(p[x])]
Recording(e) ==
  [steps |-> [k \in 1..Len(e.back) |->
                [t |-> Plain(e.back[k].t),
                 parts |-> [j \in 1..Len(e.back[k].parts) |->
                              LET q == e.back[k].parts[j]
                              IN [p |-> Triple(q.p), v |-> Triple(q.v), r |-> Plain(q.r), d |-> Plain(q.d), c |-> Plain(q.c), id |-> Plain(q.id), ty |-> Plain(q.ty)]]]],
   dims |-> [x \in 1..3 |-> <<Plain(e.dims[1][x]), Plain(e.dims[2][x])>>],
   \* the mean speed need not be whole
   vmag |-> <<Plain(e.vmag[1]), 0, Plain(e.vmag[3])>>, mean |-> e.vmag[2]]
FileOf(name, e) ==
  [name |-> name, mgr |-> IF e.by = "timestep" THEN "t" ELSE "p", type |-> IF e.by = "timestep" THEN 1 ELSE 2, ds |-> Recording(e)]

\* the effect of a call on the objects and on the data files
Effect(h, fs, inputs, c) ==
  IF ~Converts(c) THEN
    LET o == Outcome(h, fs, c)
    IN IF o.ok /\ c.c = "mean_velocity" THEN [o EXCEPT !.e = NumR(h[c.on].ds.mean)] @@ [fs |-> fs] ELSE o @@ [fs |-> fs]
  ELSE LET call == [c |-> Short(c.c), pos |-> c.pos, kw |-> c.kw]
           m == Cv!Meant([files |-> inputs, call |-> call, means |-> 1])
           e == Cv!Converted([m EXCEPT !.back = 1])
           name == Args(Cv!ParamsOf(call.c), call)["outname"].v
       IN IF ~m.ok THEN Refused(h) @@ [fs |-> fs]
          ELSE IF ~e.ok THEN Refused(h) @@ [fs |-> fs]
          \* a file of that name is replaced
          ELSE Tells(h, [t |-> "none"]) @@ [fs |-> Append(SelectSeq(fs, LAMBDA f : f.name # name), FileOf(name, e))]
=============================================================================
