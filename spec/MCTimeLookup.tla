---------------------------- MODULE MCTimeLookup ----------------------------
(* A bisection over every strictly increasing time axis within 0..2H (even    *)
(* times, so that queries fall on and between steps): its interval always     *)
(* contains a closest step, it ends, and what it returns satisfies Closest.   *)
(* With EMIT set every axis is printed with all queries.                      *)
EXTENDS TimeLookup, TLC, Json, IOUtils, FiniteSets, SequencesExt
CONSTANTS H

VARIABLES times, t, lo, hi, ans
vars == <<times, t, lo, hi, ans>>

Axes == {SetToSortSeq(s, <) : s \in SUBSET {2 * k : k \in 0..H} \ {{}}}
Queries == -1..(2 * H + 1)

Init ==
  /\ times \in Axes /\ t \in Queries
  /\ lo = 1 /\ hi = Len(times) /\ ans = -1

Refuse == ans = -1 /\ ~Recorded(times, t) /\ ans' = 0 /\ UNCHANGED <<times, t, lo, hi>>
Halve ==
  /\ ans = -1 /\ Recorded(times, t) /\ hi - lo > 1
  /\ LET m == (lo + hi) \div 2
     IN IF times[m] <= t THEN lo' = m /\ hi' = hi ELSE lo' = lo /\ hi' = m
  /\ UNCHANGED <<times, t, ans>>
Answer ==
  /\ ans = -1 /\ Recorded(times, t) /\ hi - lo <= 1
  /\ ans' = IF TAbs(times[hi] - t) <= TAbs(times[lo] - t) THEN hi ELSE lo
  /\ UNCHANGED <<times, t, lo, hi>>
Next == Refuse \/ Halve \/ Answer
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bracket == (ans = -1 /\ Recorded(times, t)) => times[lo] <= t /\ t <= times[hi] /\ Closest(times, t) \cap (lo..hi) # {}
Right == ans # -1 => IF Closest(times, t) = {} THEN ans = 0 ELSE ans \in Closest(times, t)
\* no other step is closer, and outside the recorded times there is none
Defining ==
  /\ Closest(times, t) = {k \in 1..Len(times) : Recorded(times, t) /\ \A j \in 1..Len(times) : TAbs(times[k] - t) <= TAbs(times[j] - t)}
  /\ Later(times, t) \in Closest(times, t) \cup {0} /\ (Later(times, t) = 0 <=> ~Recorded(times, t))
\* at most two steps can be closest, neighbours on both sides of the time
FewClosest == LET c == Closest(times, t) IN Cardinality(c) <= 2 /\ (\A a, b \in c : TAbs(a - b) <= 1)
Hit == \A k \in 1..Len(times) : times[k] = t => Closest(times, t) = {k}
Ends == <>(ans # -1)

Session == [kind |-> "time", times |-> times, queries |-> [k \in 1..(2 * H + 3) |-> k - 2], ut |-> "0.5", ot |-> "0"]
Emit == ("EMIT" \in DOMAIN IOEnv /\ t = 0 /\ ans = -1 /\ lo = 1 /\ hi = Len(times)) => PrintT("SESSION " \o ToJson(Session))
=============================================================================
