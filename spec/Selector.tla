------------------------------ MODULE Selector ------------------------------
(* Which particles and time steps take part in an analysis.  A filter is a    *)
(* sequence: first entry `off` = no restriction, one entry = equality, two =  *)
(* inclusive range, more = membership.                                        *)
EXTENDS Integers, Sequences

Accepts(filter, off, v) ==
  \/ filter[1] = off
  \/ Len(filter) = 1 /\ v = filter[1]
  \/ Len(filter) = 2 /\ v >= filter[1] /\ v <= filter[2]
  \/ Len(filter) > 2 /\ \E k \in 1..Len(filter) : v = filter[k]

ParticleOK(sel, q) ==
  /\ Accepts(sel.radius, -1, q.r)
  /\ Accepts(sel.clouds, -1, q.c)
  /\ Accepts(sel.density, -1, q.d)
  /\ Accepts(sel.ids, 0, q.id)

TimeOK(sel, t) == t >= sel.time[1] /\ t <= sel.time[2]
=============================================================================
