------------------------------- MODULE Calling -------------------------------
(* How Python calls are written: an argument is a tagged value [t, v], given  *)
(* by position (c.pos) or by name (c.kw); a parameter [n, ty, d] has a name, *)
(* a type and a default.                                                      *)
EXTENDS Rat

ANum(n) == [t |-> "num", v |-> R(n)]
AInt(n) == [t |-> "int", v |-> n]
AStr(s) == [t |-> "str", v |-> s]
ANone == [t |-> "none"]
Given(k) == AInt(k)

P(n, ty) == [n |-> n, ty |-> ty, d |-> [t |-> "required"]]
D(n, ty, d) == [n |-> n, ty |-> ty, d |-> d]

\* the argument for parameter k of the table; "required" if the call has none
ArgAt(ps, c, k) ==
  IF k <= Len(c.pos) THEN c.pos[k] ELSE IF ps[k].n \in DOMAIN c.kw THEN c.kw[ps[k].n] ELSE ps[k].d
\* every parameter is given once at most, and no other
Bindable(ps, c) ==
  /\ Len(c.pos) <= Len(ps)
  /\ \A x \in DOMAIN c.kw : \E k \in (Len(c.pos) + 1)..Len(ps) : ps[k].n = x
  /\ \A k \in 1..Len(ps) : ArgAt(ps, c, k).t # "required"
Args(ps, c) == [x \in {ps[k].n : k \in 1..Len(ps)} |-> ArgAt(ps, c, CHOOSE k \in 1..Len(ps) : ps[k].n = x)]

IsNone(a) == a.t = "none"
IsStr(a, among) == a.t = "str" /\ a.v \in among
IsNum(a) == a.t \in {"num", "int"}
IsCount(a) == a.t = "int" /\ a.v >= 0

\* a numeric argument, and one that has to be whole
NumOf(a) == IF a.t = "int" THEN R(a.v) ELSE a.v
Whole(a) == IF a.t = "int" THEN a.v ELSE a.v[1] \div a.v[2]
=============================================================================
