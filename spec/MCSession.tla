------------------------------ MODULE MCSession ------------------------------
(* Objects made by calls on the Python interface: two Data objects of one     *)
(* file, grids, fields and plotters.  Every sequence of Depth calls on them   *)
(* is explored; a call changes the object it is made on or none, fields       *)
(* depend on the window of their own Data object only, and plotters keep what *)
(* they were given.  With EMIT set every behaviour is printed as a session.   *)
EXTENDS Interface, IOUtils
CONSTANTS Depth

VARIABLES h, calls, old, last
vars == <<h, calls, old, last>>

Q(id, p, v) == [p |-> p, v |-> v, r |-> 1, c |-> 0, d |-> 1, id |-> id, ty |-> id]
File == [name |-> "a.h5", mgr |-> "t", type |-> 1,
         ds |-> [steps |-> << [t |-> 0, parts |-> << Q(1, <<1, 1, 1>>, <<0, 3, 4>>), Q(2, <<3, 1, 1>>, <<1, 0, 0>>) >>],
                              [t |-> 2, parts |-> << Q(1, <<3, 1, 1>>, <<-2, 0, 0>>), Q(2, <<3, 1, 2>>, <<0, 0, 6>>) >>] >>,
                 dims |-> << <<0, 4>>, <<0, 2>>, <<0, 2>> >>, vmag |-> <<0, 3, 10>>]]
Fs == << File >>

C(on, name, pos) == [c |-> name, on |-> on, pos |-> pos, kw |-> <<>>]
Ref(k) == [t |-> "ref", v |-> k]
Ints(s) == [t |-> "list", v |-> [k \in DOMAIN s |-> AInt(s[k])]]

Of(kinds) == {k \in 1..Len(h) : h[k].k \in kinds}
Windows == << <<AInt(0), AInt(1)>>, <<ANum(1), AInt(2)>>, <<AInt(3), AInt(4)>> >>

Prefix == << C(0, "Data", <<AStr("a.h5")>>), C(0, "Data.from_tdata", <<AStr("a.h5")>>), C(0, "Grid", <<Ref(1), Ints(<<2, 1, 1>>)>>) >>
RECURSIVE Made(_)
Made(k) == IF k = 0 THEN <<>> ELSE After(Outcome(Made(k - 1), Fs, Prefix[k]))

Init == h = Made(Len(Prefix)) /\ calls = Prefix /\ old = h /\ last = [ok |-> FALSE]
Do(c) == LET o == Outcome(h, Fs, c) IN calls' = Append(calls, c) /\ h' = After(o) /\ last' = o /\ old' = h
Next ==
  /\ Len(calls) < Len(Prefix) + Depth
  /\ \/ \E d \in Of({"data"}), w \in DOMAIN Windows : Do(C(d, "set_time", Windows[w]))
     \/ \E d \in Of({"data"}), g \in Of({"grid"}), m \in {"numberfield", "vectorfield"} : Do(C(d, m, <<Ref(g)>>))
     \/ \E g \in Of({"grid"}) : Do(C(g, "remove_outliers", <<AInt(0), AInt(1)>>))
     \/ \E k \in Of({"grid", "vec"}) : Do(C(0, "Plotter2D", <<Ref(k)>>))
     \/ \E p \in Of({"plotter"}) : Do(C(p, "scalar_map", <<AInt(2)>>))
Made1 == Len(calls) > Len(Prefix)
Now == calls[Len(calls)]

-----------------------------------------------------------------------------
\* the last window set on a Data object before call k
WindowOf(d, k) ==
  LET w == {j \in 1..(k - 1) : calls[j].on = d /\ calls[j].c = "set_time" /\ Whole(calls[j].pos[1]) <= 2}
  IN IF w = {} THEN <<-1000, 1000>>
     ELSE LET j == CHOOSE x \in w : \A y \in w : y <= x IN <<Whole(calls[j].pos[1]), Whole(calls[j].pos[2])>>
Counted(w, cell) ==
  Cardinality({s \in (1..2) \X (1..2) :
                 /\ w[1] <= File.ds.steps[s[1]].t /\ File.ds.steps[s[1]].t <= w[2]
                 /\ CellNo(h[3].g, File.ds.steps[s[1]].parts[s[2]].p) = cell})
Frame ==
  Made1 => /\ \A k \in 1..Len(old) : h[k] # old[k] => k = Now.on /\ Now.c \in {"set_time", "remove_outliers"}
           /\ ~last.ok => \A k \in 1..Len(old) : h[k] = old[k]
           /\ Len(h) = Len(old) + 1
Fields ==
  Made1 /\ Now.c = "numberfield" =>
    /\ last.ok
    /\ \A cell \in 1..2 : h[Len(h)].st.val[cell] = R(Counted(WindowOf(Now.on, Len(calls)), cell))
Kept ==
  \A p \in Of({"plotter"}) :
    LET f == calls[p].pos[1].v
    IN \* nothing was removed from the field since: the plotter has the same values
       (\A j \in (p + 1)..Len(calls) : ~(calls[j].on = f /\ calls[j].c = "remove_outliers")) => h[p].st = h[f].st
Unshared ==
  Made1 /\ Now.c = "remove_outliers" => \A p \in Of({"plotter"}) : h[p] = old[p]
Emit == (Len(calls) = Len(Prefix) + Depth /\ "EMIT" \in DOMAIN IOEnv) =>
          PrintT("SESSION " \o ToJson([kind |-> "python", files |-> Fs, calls |-> calls]))
=============================================================================
