------------------------------- MODULE MCCirc -------------------------------
(* Exhaustive check of the circulation automata: every record of one particle *)
(* of up to T steps.  The automata (which see one step at a time) have to     *)
(* report what the definition over the whole record says.  With EMIT set      *)
(* every complete record is printed as a session for the implementation.      *)
EXTENDS Analyses, Json, IOUtils
CONSTANTS Op, T, Records, Window

VARIABLES steps, acc
vars == <<steps, acc>>

Sel == [radius |-> <<1>>, clouds |-> <<-1>>, density |-> <<-1>>, ids |-> <<0>>,
        time |-> IF Window THEN <<1, 3>> ELSE <<-1, 99>>]
O == IF Op = "circ" THEN [op |-> "circ", axis |-> 1, b |-> 0, sel |-> Sel]
     ELSE [op |-> "circ2", axis |-> 1, b |-> -1, b2 |-> 1, sel |-> Sel]

Coord == IF Op = "circ" THEN {-1, 0, 1} ELSE {-2, -1, 0, 1, 2}
Ends == IF Op = "circ" THEN {-1, 1} ELSE {-2, 0, 2}
Q(x, id, r) == [p |-> <<x, 0, 0>>, v |-> <<0, 0, 0>>, r |-> r, c |-> 0, d |-> 1, id |-> id, ty |-> 1]
\* what may be recorded at one step
Rows == IF Records THEN {<<>>} \cup {<<Q(x, 1, 1)>> : x \in Ends \cup {UNDEF}} \cup {<<Q(x, 2, 1)>> : x \in Ends} \cup {<<Q(x, 1, 2)>> : x \in Ends}
        ELSE {<<Q(x, 1, 1)>> : x \in Coord \cup {UNDEF}}

DS == [steps |-> steps]
Init == steps = <<>> /\ acc = [last |-> 0, auto |-> <<Auto0(O)>>, done |-> <<>>]
Record(row) ==
  /\ Len(steps) < T
  /\ LET ds == [steps |-> Append(steps, [t |-> 2 * Len(steps) + (Len(steps) % 2), parts |-> row])]
     IN /\ steps' = ds.steps
        /\ acc' = IF StepSelected(O, ds.steps[Len(ds.steps)]) THEN CircConsume(O, ds, acc, Len(ds.steps)) ELSE acc
Next == \E row \in Rows : Record(row)

-----------------------------------------------------------------------------
(* The definition *)
Chosen == {n \in 1..Len(steps) : StepSelected(O, steps[n])}
Before(n) == LET b == {m \in Chosen : m < n} IN IF b = {} THEN 0 ELSE CHOOSE m \in b : \A k \in b : k <= m
\* steps at which the particle is seen to have moved from the last selected step
Moves == {n \in Chosen :
            LET m == Before(n)
            IN /\ m # 0 /\ steps[n].parts # <<>> /\ steps[m].parts # <<>>
               /\ PartSelected(O, steps[n].parts[1]) /\ steps[n].parts[1].id = steps[m].parts[1].id}
X(n) == steps[n].parts[1].p[1]
Through(n, b, way) ==      \* strictly from one side of b to the other, way = side it arrives at
  /\ X(n) # UNDEF /\ X(Before(n)) # UNDEF
  /\ Sgn(X(n) - b) = way /\ Sgn(X(Before(n)) - b) = -way
Ordered(S) == SetToSortSeq(S, <)

Threes ==
  LET c == Ordered({n \in Moves : Through(n, 0, 1) \/ Through(n, 0, -1)})
  IN [k \in 1..(Len(c) \div 3) |-> steps[c[3 * k]].t - steps[c[3 * k - 2]].t]

Leaves(n, region) == IF region = 1 THEN Through(n, 1, -1) ELSE Through(n, -1, 1)
Enters(n, region) == IF region = 1 THEN Through(n, 1, 1) ELSE Through(n, -1, -1)
Departures == {n \in Moves : Leaves(n, 1) \/ Leaves(n, -1)}
Pairs ==
  IF Departures = {} THEN <<>>
  ELSE LET first == CHOOSE n \in Departures : \A m \in Departures : n <= m
           home == IF Leaves(first, 1) THEN 1 ELSE -1
           d == Ordered({n \in Departures : Leaves(n, home)})
           visit(k) == \E n \in Moves : n >= d[k] /\ n < d[k + 1] /\ Enters(n, -home)
           full == SelectSeq([k \in 1..(Len(d) - 1) |-> k], LAMBDA k : visit(k))
       IN [k \in 1..Len(full) |-> <<steps[d[full[k]]].t, steps[d[full[k] + 1]].t>>]

Definition == acc.done = IF Op = "circ" THEN Threes ELSE Pairs
\* circulations take time and do not overlap
Forward ==
  IF Op = "circ" THEN \A k \in 1..Len(acc.done) : acc.done[k] > 0
  ELSE /\ \A k \in 1..Len(acc.done) : acc.done[k][1] < acc.done[k][2]
       /\ \A k \in 1..(Len(acc.done) - 1) : acc.done[k][2] <= acc.done[k + 1][1]
\* nothing reported is ever taken back
Stable == [][acc.done = SubSeq(acc'.done, 1, Len(acc.done))]_vars
\* a departure from one region always lies between two from the other
Spec == Init /\ [][Next]_vars

Session ==
  [kind |-> "analysis", u |-> "1", uv |-> "1", ut |-> "1", off |-> <<"0", "0", "0">>,
   ds |-> [steps |-> steps, dims |-> << <<-9, 9>>, <<-50, 50>>, <<-50, 50>> >>, vmag |-> <<0, 0, 40>>],
   ops |-> <<O>>]
Emit == (Len(steps) = T /\ "EMIT" \in DOMAIN IOEnv) => PrintT("SESSION " \o ToJson(Session))
=============================================================================
