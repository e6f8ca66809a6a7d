------------------------------- MODULE Files -------------------------------
(* What a data file records and what reading one of its steps gives.  A file  *)
(* either lists its steps or is given by a formula (long files).  Steps are   *)
(* numbered from 0, as in the calls.  `mgr` is "t" (one group per time step)  *)
(* or "p" (one group per particle).                                           *)
EXTENDS Rat

IsGen(s) == "gen" \in DOMAIN s.file
NSteps(s) == IF IsGen(s) THEN s.file.gen.t ELSE Len(s.file.steps)
Has(s, name) == "without" \notin DOMAIN s.file \/ \A k \in 1..Len(s.file.without) : s.file.without[k] # name

\* attribute a of particle k (both from 0) at step t of a file given by the formula
Formula(t, k, a) == (a + 1) * t + 7 * k + a
Recorded0(s, t, k) ==
  IF IsGen(s)
    THEN LET f(a) == Formula(t, k, a)
         IN [p |-> <<f(0), f(1), f(2)>>, v |-> <<f(3), f(4), f(5)>>, r |-> f(6), d |-> f(7), c |-> f(8), ty |-> f(9), id |-> f(10)]
    ELSE s.file.steps[t + 1].parts[k + 1]
NParts(s, t) == IF IsGen(s) THEN s.file.gen.n ELSE Len(s.file.steps[t + 1].parts)
TimeOf(s, t) == IF IsGen(s) THEN 3 * t + 1 ELSE s.file.steps[t + 1].t

Rs(v) == [k \in 1..Len(v) |-> R(v[k])]

(* A file by time steps must record everything but densities, which are one  *)
(* when missing.  In a file by particles radii and types may be missing too  *)
(* (zero), a particle stands for itself alone, and is known by its number.   *)
PartRead(s, t, k) ==
  LET q == Recorded0(s, t, k)
      or(name, x, default) == IF Has(s, name) THEN R(x) ELSE R(default)
  IN [p |-> Rs(q.p), v |-> Rs(q.v), d |-> or("density", q.d, 1),
      r |-> or("radius", q.r, 0), ty |-> or("particletype", q.ty, 0),
      c |-> IF s.mgr = "p" THEN ROne ELSE R(q.c),
      id |-> IF s.mgr = "p" THEN R(k) ELSE R(q.id)]
StepRead(s, t) ==
  [ok |-> TRUE, t |-> R(TimeOf(s, t)), parts |-> [k \in 1..NParts(s, t) |-> PartRead(s, t, k - 1)]]

StatsRead(s) ==
  LET st == s.file.stats
      rows(m) == [k \in 1..Len(m) |-> Rs(m[k])]
  IN [ok |-> TRUE, dims |-> rows(st.dims), vel |-> rows(st.vel), n |-> st.n, steps |-> NSteps(s),
      time |-> Rs(st.time), rate |-> R(st.rate), vmag |-> Rs(st.vmag),
      axis |-> [t \in 1..NSteps(s) |-> R(TimeOf(s, t - 1))]]
=============================================================================
