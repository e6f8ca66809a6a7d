----------------------------- MODULE MCExtract -----------------------------
(* Extraction of the rows of one particle for every range of time steps: the  *)
(* rows come in order, one per step of the range, and are those recorded.     *)
EXTENDS Analyses, Json, IOUtils
CONSTANTS T, P

VARIABLES steps, from, to, k, n, rows
vars == <<steps, from, to, k, n, rows>>

\* every recorded number is different, one of them undefined
Q(m, j) == [p |-> <<100 * m + 10 * j + 1, -(100 * m + 10 * j + 2), IF m = 2 /\ j = 1 THEN UNDEF ELSE 100 * m + 10 * j + 3>>,
            v |-> <<100 * m + 10 * j + 4, 100 * m + 10 * j + 5, -(100 * m + 10 * j + 6)>>,
            r |-> 1, c |-> 0, d |-> 1, id |-> j, ty |-> j]
O == [op |-> "extract", particle |-> k, from |-> from, to |-> to]
DS == [steps |-> steps]

Init ==
  /\ steps \in {[m \in 1..t |-> [t |-> 3 * m + (m % 2), parts |-> [j \in 1..P |-> Q(m, j)]]] : t \in 1..T}
  /\ from \in 0..T /\ to \in 0..(T + 2) /\ from <= to /\ k \in 0..(P - 1)
  /\ n = 1 /\ rows = <<>>
Next ==
  /\ Legal(O, DS) /\ n <= Len(steps)
  /\ rows' = Consume(O, DS, rows, n) /\ n' = n + 1 /\ UNCHANGED <<steps, from, to, k>>

Rows == (Legal(O, DS) /\ n = Len(steps) + 1) =>
  /\ Len(rows) = to - from
  /\ \A m \in 1..Len(rows) :
       LET s == steps[from + m] q == s.parts[k + 1]
       IN rows[m] = << R(s.t) >> \o [a \in 1..3 |-> IF q.p[a] = UNDEF THEN NaN ELSE R(q.p[a])] \o [a \in 1..3 |-> R(q.v[a])]

Session == [kind |-> "analysis", u |-> "1", uv |-> "1", ut |-> "1", off |-> <<"0", "0", "0">>,
            ds |-> [steps |-> steps, dims |-> << <<-50, 50>>, <<-50, 50>>, <<-50, 50>> >>, vmag |-> <<0, 3, 10>>],
            ops |-> <<O>>]
Emit == (n = 1 /\ "EMIT" \in DOMAIN IOEnv) => PrintT("SESSION " \o ToJson(Session))
=============================================================================
