------------------------------- MODULE MCTexts -------------------------------
(* The text of a field as samples come in, one by one: each is a speed in one *)
(* of a few cells.  Its numbers tell the field: they bound each other, follow *)
(* every sample, and neither order of samples nor empty cells count.          *)
EXTENDS Texts, IOUtils
CONSTANTS MaxCells, MaxSamples

Speeds == {-1, 0, 2}
VARIABLES n, got
vars == <<n, got>>
G == [kind |-> "cart", cells |-> <<1, 1, n>>, lim |-> << <<0, 2>>, <<0, 2>>, <<0, 2 * n>> >>]
Init == n \in 1..MaxCells /\ got = <<>>
Sample == Len(got) < MaxSamples /\ \E c \in 1..n, v \in Speeds : got' = Append(got, <<c, v>>) /\ UNCHANGED n
Next == Sample

Part(s) == [p |-> <<1, 1, 2 * s[1] - 1>>, v |-> <<s[2], 0, 0>>, r |-> 1, c |-> 1, d |-> 1, id |-> 0, ty |-> 1]
File(samples) ==
  [name |-> "a.h5", mgr |-> "t", type |-> 1,
   ds |-> [steps |-> << [t |-> 0, parts |-> [k \in 1..Len(samples) |-> [Part(samples[k]) EXCEPT !.id = k - 1]]], [t |-> 3, parts |-> <<>>] >>,
           dims |-> G.lim, vmag |-> <<0, 2, 7>>]]
Ref(k) == [t |-> "ref", v |-> k]
C(on, name, pos) == [c |-> name, on |-> on, pos |-> pos, kw |-> <<>>]
Mode == [t |-> "str", v |-> "x"]
Calls == << C(0, "Data", <<AStr("a.h5")>>), C(0, "Grid", <<Ref(1), [t |-> "list", v |-> <<AInt(1), AInt(1), AInt(n)>>]>>),
            C(1, "velocityfield", <<Ref(2), Mode>>), C(3, "str", <<>>), C(1, "numberfield", <<Ref(2)>>), C(5, "repr", <<>>),
            C(1, "str", <<>>), C(1, "stats", <<>>) >>
RECURSIVE After1(_, _, _)
After1(h, samples, k) == IF k = 0 THEN h ELSE LET g == After1(h, samples, k - 1) IN After(Outcome(g, <<File(samples)>>, Calls[k]))
Field(samples, k) == After1(<<>>, samples, k)[k].st
M(samples) == Moments(Field(samples, 3))

-----------------------------------------------------------------------------
Mine(c) == SelectSeq(got, LAMBDA s : s[1] = c)
Filled1 == {c \in 1..n : Mine(c) # <<>>}
Bounds ==
  LET st == Field(got, 3) m == Moments(st)
  IN IF Filled1 = {} THEN MinOf(st) = NaN /\ MaxOf(st) = NaN /\ m.mean = NaN /\ m.var = NaN
     ELSE /\ RLe(MinOf(st), m.mean) /\ RLe(m.mean, MaxOf(st)) /\ RLe(RZero, m.var)
          /\ (m.var = RZero) = (MinOf(st) = MaxOf(st))
          \* a spread is at most half the range
          /\ LET w == RSub(MaxOf(st), MinOf(st)) IN RLe(RMul(R(4), m.var), RMul(w, w))
Known == M(got).known
\* the order of samples counts not
Backwards == [k \in 1..Len(got) |-> got[Len(got) + 1 - k]]
Order == M(Backwards) = M(got)
\* cells beyond those with samples count not
Empty ==
  LET st == Field(got, 3) IN Moments([st EXCEPT !.val = @ \o <<NaN, NaN>>]) = Moments(st)
\* all speeds by one more: so the mean, the spread as before
Shifted == [k \in 1..Len(got) |-> <<got[k][1], got[k][2] + 1>>]
Shift == Filled1 # {} => M(Shifted).mean = RAdd(M(got).mean, ROne) /\ M(Shifted).var = M(got).var
\* counts: their mean is the number of samples by cell
Counts == LET st == Field(got, 5) IN Moments(st).mean = Norm(Len(got), n) /\ RLe(MinOf(st), MaxOf(st))
\* data: the width of an axis is what lies between its ends
Widths == LET t == DataText(File(got).ds) IN \A x \in {"x", "y", "z"} : t[x][3] = RSub(t[x][2], t[x][1])
Emit == "EMIT" \in DOMAIN IOEnv /\ got # <<>> => PrintT("SESSION " \o ToJson([kind |-> "python", texts |-> 1, files |-> <<File(got)>>, calls |-> Calls]))
=============================================================================
