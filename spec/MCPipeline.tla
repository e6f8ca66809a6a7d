------------------------------ MODULE MCPipeline ------------------------------
(* Small measurements in every order of rows and files, converted, opened and *)
(* analysed.  Fields count and average the rows that were measured within the *)
(* window and the cell, whatever form and order they came in; analyses leave  *)
(* the data files alone.  With EMIT set the behaviours are printed.           *)
EXTENDS Pipeline, IOUtils
CONSTANTS Depth, Ways

VARIABLES way, inputs, rows, h, fs, calls, last
vars == <<way, inputs, rows, h, fs, calls, last>>

\* measured: [t, id, p, v]
M(t, id, p, v) == [t |-> t, id |-> id, p |-> p, v |-> v]
One == << M(0, 1, <<1, 1, 1>>, <<0, 3, 4>>), M(2, 1, <<3, 1, 1>>, <<1, 0, 0>>), M(3, 1, <<3, 3, 1>>, <<-2, 0, 0>>) >>
Two == << M(0, 1, <<1, 1, 1>>, <<0, 3, 4>>), M(0, 2, <<1, 3, 1>>, <<2, 0, 0>>),
          M(2, 1, <<3, 1, 1>>, <<1, 0, 0>>), M(2, 2, <<1, 3, 1>>, <<0, 0, -6>>) >>

Motion(m) == m.p \o m.v
Entry(m, way_) ==
  LET n == CASE way_ = "csv" -> <<m.t>> \o Motion(m) [] way_ = "id_line" -> <<m.t, m.id>> \o Motion(m) [] way_ = "steps" -> <<m.id>> \o Motion(m)
  IN [k \in 1..Len(n) |-> R(n[k])]
Text(name, seq, way_, header) ==
  [name |-> name, folder |-> "", text |-> [cols |-> Len(Entry(seq[1], way_)), rows |-> [k \in 1..Len(seq) |-> Entry(seq[k], way_)],
                                           delim |-> ",", header |-> header, comment |-> "#", notes |-> <<>>]]
RatSeq(s) == [k \in 1..Len(s) |-> R(s[k])]
Vtk(step, seq) ==
  [name |-> "in/step_" \o ToString(step) \o ".vtk", folder |-> "in", ext |-> "vtk", step |-> step, other |-> FALSE, wide |-> 0, content |-> "legacy",
   pieces |-> << [k \in 1..Len(seq) |-> [p |-> RatSeq(seq[k].p),
                                         f |-> [v |-> RatSeq(seq[k].v), radius |-> R(1), id |-> R(seq[k].id), type |-> R(1)]]] >>,
   names |-> <<"v", "radius", "id", "type">>, vectors |-> <<"v">>, ints |-> <<"id", "type">>]

Orders(n) == {f \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => f[a] # f[b]}
Put(seq, f) == [k \in 1..Len(seq) |-> seq[f[k]]]
AInput(n) == AStr(n) @@ [in |-> 1]
Ints(s) == [t |-> "list", v |-> [k \in DOMAIN s |-> AInt(s[k])]]
C(on, name, pos, kw) == [c |-> name, on |-> on, pos |-> pos, kw |-> kw]
\* the steps of Two, each in one of the orders
StepRows(t, f) == Put(SelectSeq(Two, LAMBDA m : m.t = t), f)

\* [inputs, measured rows that count, call]
Conversions ==
  IF way = "csv" THEN
    {LET seq == Put(One, f)
     IN [inputs |-> << Text("m.csv", seq, "csv", hd[1]) >>,
         \* without a header the first row is taken for one
         rows |-> IF hd = <<0, 1>> THEN Tail(seq) ELSE seq,
         call |-> C(0, "Converter.csv", << AInput("m.csv"), AStr("a.hdf5"), Ints(<<0, 1, 2, 3, 4, 5, 6>>) >>, [header |-> [t |-> "bool", v |-> hd[2]]])]
     : f \in Orders(3), hd \in {<<0, 0>>, <<1, 1>>, <<0, 1>>}}
  ELSE IF way = "id_line" THEN
    {[inputs |-> << Text("m.csv", Put(Two, f), "id_line", 1) >>, rows |-> Two,
      call |-> C(0, "Converter.csv_multi", << AInput("m.csv"), AStr("a.hdf5"), Ints(<<0, 1, 2, 3, 4, 5, 6, 7>>) >>, [method |-> AStr("id_line")])]
     : f \in Orders(4)}
  ELSE IF way = "steps" THEN
    {[inputs |-> << Text("s0.csv", StepRows(0, f), "steps", 1), Text("s1.csv", StepRows(2, e), "steps", 1) >>, rows |-> Two,
      call |-> C(0, "Converter.csv_multi_files", << [t |-> "list", v |-> <<AInput("s0.csv"), AInput("s1.csv")>>], AStr("a.hdf5"),
                                                     [t |-> "list", v |-> <<ANum(0), AInt(2)>>], Ints(<<0, 1, 2, 3, 4, 5, 6>>) >>, <<>>)]
     : f \in Orders(2), e \in Orders(2)}
  ELSE
    {LET files == << Vtk(0, StepRows(0, f)), Vtk(2, StepRows(2, e)) >>
         seq == Put(files, o)
     IN [inputs |-> seq, rows |-> Two,
         call |-> IF folder THEN C(0, "Converter.vtk_from_folder", << AInput("in"), ANum(1), AStr("a.hdf5") >>, <<>>)
                  ELSE C(0, "Converter.vtk", << [t |-> "list", v |-> [k \in 1..2 |-> AInput(seq[k].name)]], ANum(1), AStr("a.hdf5") >>, <<>>)]
     : f \in Orders(2), e \in Orders(2), o \in Orders(2), folder \in BOOLEAN}

Windows == << <<AInt(0), AInt(1)>>, <<ANum(1), AInt(2)>>, <<AInt(2), AInt(9)>> >>
Ref(k) == [t |-> "ref", v |-> k]
Opening == << C(0, "Data", <<AStr("a.hdf5")>>, <<>>),
              C(0, "Grid", << ANone, Ints(<<2, 2, 1>>), AStr("cartesian"), ANone, Ints(<<0, 4, 0, 4, 0, 2>>) >>, <<>>) >>

Do(c) == LET o == Effect(h, fs, inputs, c) IN calls' = Append(calls, c) /\ h' = After(o) /\ fs' = o.fs /\ last' = o
Nothing == calls = <<>> /\ h = <<>> /\ fs = <<>> /\ last = [ok |-> FALSE]
Init == way \in Ways /\ inputs = <<>> /\ rows = <<>> /\ Nothing
Converting ==
  /\ calls = <<>>
  /\ \E m \in Conversions :
       LET o == Effect(h, fs, m.inputs, m.call)
       IN inputs' = m.inputs /\ rows' = m.rows /\ calls' = << m.call >> /\ h' = After(o) /\ fs' = o.fs /\ last' = o
  /\ UNCHANGED way
Open == Len(calls) \in {1, 2} /\ fs # <<>> /\ Do(Opening[Len(calls)]) /\ UNCHANGED <<way, inputs, rows>>
Analyse ==
  /\ Len(calls) \in 3..(2 + Depth)
  /\ \/ \E w \in DOMAIN Windows : Do(C(2, "set_time", Windows[w], <<>>))
     \/ \E m \in {"numberfield", "vectorfield"} : Do(C(2, m, <<Ref(3)>>, <<>>))
     \/ Do(C(2, "list", <<>>, <<>>))
  /\ UNCHANGED <<way, inputs, rows>>
Next == Converting \/ Open \/ Analyse

-----------------------------------------------------------------------------
Now == calls[Len(calls)]
Opened_ == Len(calls) >= 2
\* vtk files are taken in the order they are given in, which has to be that of time
Converts_ == Len(calls) = 1 => last.ok = (Now.c # "Converter.vtk" \/ inputs[1].step < inputs[2].step)
Window ==
  LET w == {k \in 1..(Len(calls) - 1) : calls[k].c = "set_time"}
  IN IF w = {} THEN <<-1000, 1000>> ELSE LET k == CHOOSE x \in w : \A y \in w : y <= x IN <<Whole(calls[k].pos[1]), Whole(calls[k].pos[2])>>
In(cell) == SelectSeq(rows, LAMBDA m : Window[1] <= m.t /\ m.t <= Window[2] /\ CellNo(h[3].g, m.p) = cell)
Counted == Len(calls) > 3 /\ Now.c = "numberfield" => last.ok /\ \A cell \in 1..4 : last.n.st.val[cell] = R(Len(In(cell)))
Averaged ==
  Len(calls) > 3 /\ Now.c = "vectorfield" =>
    last.ok /\ \A d \in 1..3, cell \in 1..4 :
      LET seq == In(cell)
      IN seq # <<>> => last.n.st[d].val[cell] = RDiv(RSum([k \in 1..Len(seq) |-> R(seq[k].v[d])]), R(Len(seq)))
\* every row is there once
Kept ==
  Opened_ => LET st == h[2].ds.steps
             IN /\ {<<st[k].t, st[k].parts[j].p, st[k].parts[j].v>> : k \in 1..Len(st), j \in 1..Len(st[1].parts)}
                     = {<<rows[k].t, rows[k].p, rows[k].v>> : k \in 1..Len(rows)}
                /\ SumSet({100 * k + Len(st[k].parts) : k \in 1..Len(st)}) = Len(rows) + SumSet({100 * k : k \in 1..Len(st)})
Files == Len(calls) >= 1 /\ fs # <<>> => Len(fs) = 1 /\ fs[1].name = "a.hdf5"
Emit == (Len(calls) = 3 + Depth /\ "EMIT" \in DOMAIN IOEnv) =>
          PrintT("SESSION " \o ToJson([kind |-> "python", inputs |-> inputs, files |-> <<>>, calls |-> calls]))
=============================================================================
