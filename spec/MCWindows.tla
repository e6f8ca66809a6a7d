------------------------------ MODULE MCWindows ------------------------------
(* Analyses and lookups on files of any length, read by read: every call is a *)
(* plan of reads through the main buffer and through the further one that     *)
(* analyses of pairs of steps set up.  Whatever calls were made before, every *)
(* read gives the step asked for, so that a call sees the steps it sees on a  *)
(* Data object just opened.  With EMIT set every sequence of Depth calls on a *)
(* file of an emitted length is printed as a session of the Python interface. *)
EXTENDS Buffers, TimeLookup, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxT, Depth, Emitted

VARIABLES T, main, ext, calls, todo, seen
vars == <<T, main, ext, calls, todo, seen>>

-----------------------------------------------------------------------------
(* reads: <<buffer, step>>, the further buffer is 1; <<1, -1>> sets it up *)
Get(t) == <<0, t>>
Pass(n) == [k \in 1..n |-> Get(k - 1)]
Setup == << <<1, -1>> >>
RECURSIVE Each(_, _, _)
Each(f(_), lo, hi) == IF lo > hi THEN <<>> ELSE f(lo) \o Each(f, lo + 1, hi)
Times(n) == [k \in 1..n |-> 2 * (k - 1)]
Lagged(n, lag) ==
  LET f(t) == LET l == Later(Times(n), 2 * t + lag) IN IF l = 0 THEN <<Get(t)>> ELSE <<Get(t), <<1, l - 1>>>> IN Setup \o Each(f, 0, n - 1)
Pairs(n) == LET f(t) == <<Get(t), <<1, t + 1>>>> IN Setup \o Each(f, 0, n - 2)

Kinds == {"number", "occupancy", "msd2", "msd10", "dispersion", "circ", "first", "last", "back", "iterate"}
Plan(k, n) ==
  CASE k = "number" -> Pass(n)
    [] k = "occupancy" -> Pairs(n)
    [] k = "msd2" -> Lagged(n, 2)
    [] k = "msd10" -> Lagged(n, 10)
    [] k = "dispersion" -> Lagged(n, 6)
    [] k = "circ" -> <<Get(0)>> \o Pass(n)
    [] k = "first" -> <<Get(0)>>
    [] k = "last" -> <<Get(n - 1)>>
    \* every third step, from the last one
    [] k = "back" -> [j \in 1..((n - 1) \div 3 + 1) |-> Get(n - 1 - 3 * (j - 1))]
    [] k = "iterate" -> Pass(n)

Init ==
  /\ T \in 1..MaxT
  /\ main = Filled(EmptyBuffer, 0, B, T)
  /\ ext = EmptyBuffer
  /\ calls = <<>> /\ todo = <<>> /\ seen = <<>>

Start(k) ==
  /\ todo = <<>> /\ Len(calls) < Depth
  /\ calls' = Append(calls, k) /\ todo' = Plan(k, T) /\ seen' = <<>>
  /\ UNCHANGED <<T, main, ext>>
Read ==
  /\ todo # <<>>
  /\ LET r == Head(todo) IN
     /\ IF r[1] = 0 THEN main' = Moved(main, r[2], MainSize(main), T) /\ UNCHANGED ext
        ELSE IF r[2] = -1 THEN ext' = Filled(ext, 0, B, T) /\ UNCHANGED main
        ELSE ext' = Moved(ext, r[2], B, T) /\ UNCHANGED main
     /\ seen' = IF r[2] = -1 THEN seen ELSE Append(seen, Held(IF r[1] = 0 THEN main' ELSE ext', r[2]))
  /\ todo' = Tail(todo) /\ UNCHANGED <<T, calls>>
Next == Read \/ \E k \in Kinds : Start(k)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Window(b) == b.lo < b.hi /\ b.hi <= T /\ b.hi - b.lo <= B /\ \A k \in b.lo..(b.hi - 1) : b.slot[k - b.lo] = k
Windows == Window(main) /\ (ext.hi > 0 => Window(ext))
Steps(plan) == SelectSeq([j \in 1..Len(plan) |-> plan[j][2]], LAMBDA t : t >= 0)
\* the steps a call sees are those it asks for, in this order, whatever went before
Right == calls # <<>> => seen \o Steps(todo) = Steps(Plan(calls[Len(calls)], T))
\* a call that looks at all steps has seen all of them
Whole == calls # <<>> /\ todo = <<>> /\ calls[Len(calls)] \notin {"first", "last", "back"} /\ (T > 1 \/ calls[Len(calls)] # "occupancy")
           => {seen[j] : j \in 1..Len(seen)} = 0..(T - 1)

-----------------------------------------------------------------------------
(* the session *)
Q(id, t) == [p |-> <<(t * (id + 1)) % 4, id, (t + id) % 3>>, v |-> <<t, id, 0>>, r |-> 1, c |-> 1, d |-> 1, id |-> id - 1, ty |-> id]
File(mgr) ==
  [name |-> "a.h5", mgr |-> mgr, type |-> IF mgr = "t" THEN 1 ELSE 2,
   ds |-> [steps |-> [k \in 1..T |-> [t |-> 2 * (k - 1), parts |-> <<Q(1, k - 1), Q(2, k - 1)>>]],
           dims |-> << <<0, 4>>, <<0, 3>>, <<0, 3>> >>, vmag |-> <<0, 3, 10>>]]
AInt(n) == [t |-> "int", v |-> n]
Ref(k) == [t |-> "ref", v |-> k]
C(on, name, pos) == [c |-> name, on |-> on, pos |-> pos, kw |-> <<>>]
None1 == 1000000007
Asked(k) ==
  CASE k = "number" -> C(1, "numberfield", <<Ref(2)>>)
    [] k = "occupancy" -> C(1, "occupancyfield", <<Ref(2), AInt(0)>>)
    [] k = "msd2" -> C(1, "msd_field", <<Ref(2), AInt(2)>>)
    [] k = "msd10" -> C(1, "msd_field", <<Ref(2), AInt(10)>>)
    [] k = "dispersion" -> C(1, "dispersion", <<Ref(2), AInt(6)>>)
    [] k = "circ" -> C(1, "circulation_time", <<AInt(1), AInt(0)>>)
    [] k = "first" -> C(1, "getitem", <<AInt(0)>>)
    [] k = "last" -> C(1, "getitem", <<AInt(-1)>>)
    [] k = "back" -> C(1, "getitem", << [t |-> "slice", v |-> <<None1, None1, -3>>] >>)
    [] k = "iterate" -> C(1, "list", <<>>)
Session ==
  [kind |-> "python", small |-> 1, files |-> <<File(IF Len(calls) > 1 /\ calls[1] \in {"number", "msd2", "last", "circ"} THEN "p" ELSE "t")>>,
   calls |-> << C(0, "Data", << [t |-> "str", v |-> "a.h5", low |-> "a.h5"] >>),
                C(0, "Grid", << Ref(1), [t |-> "list", v |-> <<AInt(2), AInt(1), AInt(3)>>] >>) >> \o [j \in 1..Len(calls) |-> Asked(calls[j])]]
Emit == ("EMIT" \in DOMAIN IOEnv /\ todo = <<>> /\ Len(calls) = Depth /\ T \in Emitted) => PrintT("SESSION " \o ToJson(Session))
=============================================================================
