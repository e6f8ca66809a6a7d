----------------------------- MODULE MCSelector -----------------------------
(* Exhaustive check of the selection rules.  One filter with up to three      *)
(* entries ("one"), two filters at once ("two"), or histories of window       *)
(* updates and time queries ("window").  With EMIT set every selector and     *)
(* every complete history is printed as a session for the implementation.     *)
EXTENDS Selector, TLC, Json, IOUtils, SequencesExt, FiniteSets
CONSTANTS What, Vals, Depth

VARIABLES sel, win, hist
vars == <<sel, win, hist>>

Off(k) == IF k = "ids" THEN 0 ELSE -1
Attr == {"radius", "clouds", "density", "ids"}
Of == [radius |-> "r", clouds |-> "c", density |-> "d", ids |-> "id"]
Free == [radius |-> <<-1>>, clouds |-> <<-1>>, density |-> <<-1>>, ids |-> <<0>>, time |-> <<-5, 5>>]

Lists(k, len) == UNION {[1..m -> Vals \cup {Off(k)}] : m \in 1..len}
Init ==
  /\ hist = <<>> /\ win = <<-5, 5>>
  /\ sel \in CASE What = "one" -> UNION {{[Free EXCEPT ![k] = f] : f \in Lists(k, 3)} : k \in Attr}
               [] What = "two" -> UNION {{[Free EXCEPT ![p[1]] = f, ![p[2]] = h] : f \in Lists(p[1], 2), h \in Lists(p[2], 2)} :
                                           p \in {q \in Attr \X Attr : q[1] # q[2]}}
               [] What = "window" -> {Free}

Moves == {[q |-> "settime", a |-> a, b |-> b] : a \in {0, 1, 2}, b \in {0, 1, 2}} \cup {[q |-> "time", t |-> t] : t \in -1..3}
Next ==
  /\ What = "window" /\ Len(hist) < Depth
  /\ \E m \in Moves : hist' = Append(hist, m) /\ win' = IF m.q = "settime" THEN <<m.a, m.b>> ELSE win
  /\ UNCHANGED sel

\* the values other than those under test do not matter
Probe == IF What = "one" THEN [q : {"particle"}, r : Vals \cup {0, 9}, c : Vals \cup {0, 9}, d : {1, 2}, id : {1}]
                              \cup [q : {"particle"}, r : {1}, c : {2}, d : Vals \cup {0, 9}, id : Vals \cup {9}]
         ELSE [q : {"particle"}, r : {0, 1, 2}, c : {0, 1, 2}, d : {0, 1, 2}, id : {0, 1, 2}]

Single(k, q) == ParticleOK([Free EXCEPT ![k] = sel[k]], q)
Independent == What = "window" \/ \A q \in Probe : ParticleOK(sel, q) = (\A k \in Attr : Single(k, q))
Rules ==
  What = "window" \/
  \A k \in Attr, q \in Probe :
    LET f == sel[k] v == q[Of[k]]
    IN CASE f[1] = Off(k) -> Single(k, q)
         [] f[1] # Off(k) /\ Len(f) = 1 -> Single(k, q) = (v = f[1])
         [] f[1] # Off(k) /\ Len(f) = 2 -> Single(k, q) = (v \in f[1]..f[2])
         [] OTHER -> Single(k, q) = (v \in ToSet(f))
\* the last window set decides, its ends included
LastWindow ==
  LET sets == SelectSeq(hist, LAMBDA m : m.q = "settime")
  IN IF sets = <<>> THEN win = <<-5, 5>> ELSE win = <<Last(sets).a, Last(sets).b>>
Ends == \A a \in 0..2 : TimeOK([time |-> <<a, a>>], a) /\ ~TimeOK([time |-> <<a, a>>], a + 1) /\ ~TimeOK([time |-> <<a, a>>], a - 1)

Session == [kind |-> "selector", sel |-> sel, queries |-> IF What = "window" THEN hist ELSE SetToSeq(Probe)]
Emit == ("EMIT" \in DOMAIN IOEnv /\ (What = "window" => Len(hist) = Depth)) => PrintT("SESSION " \o ToJson(Session))
=============================================================================
