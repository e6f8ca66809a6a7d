------------------------------ MODULE Tolerance ------------------------------
(* Comparison of a value of the specification with a logged one.  Logged      *)
(* rationals have a bounded denominator; a value of the specification beyond  *)
(* that bound (the session generators avoid them) is logged as <<n, -1>> with *)
(* n thousandths and compared approximately.                                  *)
EXTENDS Rat, TLC

MaxDen == 300000

Close(e, n) ==
  LET q == e[1] \div (e[2] \div 1000)
  IN Abs(q - n) <= 2 + Abs(q) \div 200

\* such a value may also be logged as a rational it is no further from than rounding is
Logged(l) == IF l[2] = -1 THEN l[1] ELSE (l[1] \div l[2]) * 1000 + (((l[1] % l[2]) * 1000) \div l[2])
Same(e, l) == e = l \/ (e[2] > MaxDen /\ l[2] # 0 /\ (l[2] = -1 \/ Abs(l[1] \div l[2]) < 2000000) /\ Close(e, Logged(l)))
SameSeq(e, l) == Len(e) = Len(l) /\ \A k \in 1..Len(l) : Same(e[k], l[k])
SameStore(e, l) == SameSeq(e.val, l.val) /\ SameSeq(e.wt, l.wt)
SameStores(e, l) == Len(e) = Len(l) /\ \A k \in 1..Len(l) : SameStore(e[k], l[k])

\* a condition of a trace step; a failing one is reported
Check(cond, report) == IF cond THEN TRUE ELSE PrintT(report) /\ FALSE
\* where the trace is refused, then what was expected there
Refuse(cond, where, what) == IF cond THEN TRUE ELSE PrintT(where) /\ PrintT(what) /\ FALSE
=============================================================================
