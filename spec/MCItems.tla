------------------------------- MODULE MCItems -------------------------------
(* Recorded steps looked up in brackets: every number, every list of two and  *)
(* every slice within reach of a recording of up to N steps.  A slice gives   *)
(* the steps whose distance from its first one is a multiple of its stride,   *)
(* up to but without its end, in its direction; here over sets.               *)
EXTENDS Interface, FiniteSetsExt, IOUtils
CONSTANTS N, Stride

VARIABLES n, kind, a, done
vars == <<n, kind, a, done>>

Q(m, j) == [p |-> <<m, j, 1>>, v |-> <<0, m, 0>>, r |-> 1, c |-> 0, d |-> 1, id |-> 10 * m + j, ty |-> j]
\* numbers of particles differ; the last step has none if there are several
DS == [steps |-> [m \in 1..n |-> [t |-> 3 * m, parts |-> [j \in 1..(IF m = n /\ n > 1 THEN 0 ELSE 1 + (m % 2)) |-> Q(m, j)]]],
       dims |-> << <<0, 4>>, <<0, 2>>, <<-3, 2>> >>, vmag |-> <<0, 3, 10>>]
File == [name |-> "a.h5", mgr |-> "t", type |-> 1, ds |-> DS]

Near == (-N - 2)..(N + 2)
Some == Near \cup {UNDEF}
Init ==
  /\ n \in 1..N /\ done = 0
  /\ \/ kind = "int" /\ a \in {<<k>> : k \in Near}
     \/ kind = "list" /\ a \in {<<>>} \cup {<<k>> : k \in Near} \cup {<<k, l>> : k, l \in Near}
     \/ kind = "slice" /\ a \in {<<k, l, s>> : k, l \in Some, s \in {UNDEF} \cup (-Stride)..Stride}
Look == done = 0 /\ done' = 1 /\ UNCHANGED <<n, kind, a>>
Next == Look

Arg ==
  CASE kind = "int" -> AInt(a[1])
    [] kind = "list" -> [t |-> "list", v |-> [k \in DOMAIN a |-> AInt(a[k])]]
    [] kind = "slice" -> [t |-> "slice", v |-> a]
H == << DataObj(File) >>
Result == Items(H, DS, Arg)

-----------------------------------------------------------------------------
\* position from the front of a number counted from either end
From(k) == IF k < 0 THEN k + n ELSE k
Step == IF a[3] = UNDEF THEN 1 ELSE a[3]
\* positions 0..n-1 a slice contains
Begins == IF a[1] = UNDEF THEN (IF Step > 0 THEN 0 ELSE n - 1)
          ELSE IF Step > 0 THEN Max2(From(a[1]), 0) ELSE Min2(From(a[1]), n - 1)
Contained ==
  {p \in 0..(n - 1) :
     /\ IF Step > 0 THEN p >= Begins ELSE p <= Begins
     /\ a[2] # UNDEF => IF Step > 0 THEN p < From(a[2]) ELSE p > From(a[2])
     /\ ((p - Begins) % Abs(Step)) = 0}
Ordered(S) == IF Step > 0 THEN SetToSortSeq(S, <) ELSE SetToSortSeq(S, >)
Picked ==
  CASE kind = "slice" -> Ordered(Contained)
    [] OTHER -> [k \in DOMAIN a |-> From(a[k])]
Refusal ==
  CASE kind = "slice" -> a[3] = 0
    [] OTHER -> \E k \in DOMAIN a : a[k] >= n \/ a[k] < -n
Most == Max({Len(DS.steps[m].parts) : m \in 1..n})
\* the identity in the first column tells step and particle
Answer ==
  done = 1 =>
    /\ Result.ok = ~Refusal
    /\ Result.ok =>
         LET e == Result.e
         IN /\ kind = "int" => e.shape = <<Len(DS.steps[From(a[1]) + 1].parts), 7>>
            /\ kind # "int" => e.shape = <<Len(Picked), Most, 7>>
            /\ \A k \in DOMAIN Picked : \A j \in 1..(IF kind = "int" THEN e.shape[1] ELSE Most) :
                 LET s == DS.steps[Picked[k] + 1]
                     row == [x \in 1..7 |-> e.v[((k - 1) * Most + j - 1) * 7 + x]]
                 IN row = IF j <= Len(s.parts) THEN Row(s.parts[j]) ELSE [x \in 1..7 |-> RZero]
Calls == << [c |-> "Data", on |-> 0, pos |-> <<AStr("a.h5")>>, kw |-> <<>>],
            [c |-> "getitem", on |-> 1, pos |-> <<Arg>>, kw |-> <<>>] >>
Emit == (done = 1 /\ "EMIT" \in DOMAIN IOEnv) => PrintT("SESSION " \o ToJson([kind |-> "python", files |-> <<File>>, calls |-> Calls]))
=============================================================================
