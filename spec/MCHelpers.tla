------------------------------ MODULE MCHelpers ------------------------------
(* Exhaustive check of the numeric helpers, rotations and thresholds on small *)
(* inputs.  The inputs are built entry by entry; every one is also printed as *)
(* a session for the implementation when EMIT is set.                         *)
EXTENDS Helpers, TLC, Json, IOUtils
CONSTANTS What, Size

VARIABLE s
Vals == IF What = "threshold" THEN {0, 1, 2, -1} ELSE {-1, 0, 2, UNDEF}

Pairs == {p \in (1..4) \X (1..4) : p[1] * p[2] <= 6}
Triples == {p \in (1..3) \X (1..3) \X (1..3) : p[1] * p[2] * p[3] <= 12}

Quarter == {[sin |-> RZero, cos |-> ROne, turns |-> 0], [sin |-> ROne, cos |-> RZero, turns |-> 0],
            [sin |-> RZero, cos |-> R(-1), turns |-> 0], [sin |-> R(-1), cos |-> RZero, turns |-> 1],
            [sin |-> <<3, 5>>, cos |-> <<4, 5>>, turns |-> 0]}

Init ==
  s \in CASE What = "lists" -> {[kind |-> "helper", what |-> w, vals |-> <<>>] : w \in {"stats", "minmax"}}
          [] What = "arrays" ->
               {[kind |-> "helper", what |-> "meshgrid", x |-> [k \in 1..a |-> k], y |-> [k \in 1..b |-> 10 + k]] : a \in 0..4, b \in 0..4}
               \cup {[kind |-> "helper", what |-> "meshgrid3d", x |-> [k \in 1..a |-> k], y |-> [k \in 1..b |-> 10 + k], z |-> [k \in 1..c |-> 20 + k]] :
                       a \in 0..3, b \in 0..3, c \in 0..3}
               \cup {[kind |-> "helper", what |-> "flatten2d", shape |-> p, vals |-> [k \in 1..(p[1] * p[2]) |-> k]] : p \in Pairs}
               \cup {[kind |-> "helper", what |-> "flatten3d", shape |-> p, vals |-> [k \in 1..(p[1] * p[2] * p[3]) |-> k]] : p \in Triples}
          [] What = "rotate" ->
               {[kind |-> "rotate", pos |-> p, vel |-> p, anchor |-> a, angles |-> <<x, y, z>>] :
                  p \in {<<1, 2, 3>>, <<0, -2, 5>>}, a \in {<<0, 0, 0>>, <<1, -1, 2>>}, x \in Quarter, y \in Quarter, z \in Quarter}
          [] What = "threshold" -> {[kind |-> "threshold", vals |-> <<>>, shape |-> <<1, 1, 1>>, q |-> q] :
                  q \in {<<0, 1>>, <<1, 4>>, <<1, 2>>, <<3, 4>>, <<1, 1>>, <<-1, 4>>, <<5, 4>>}}

Grow ==
  /\ What \in {"lists", "threshold"} /\ Len(s.vals) < Size
  /\ \E v \in Vals : s' = [s EXCEPT !.vals = Append(@, v)]
Next == Grow
Listed(w) == What = "lists" /\ s.what = w /\ DefinedOf(s.vals) # <<>>

-----------------------------------------------------------------------------
\* the mean lies between minimum and maximum, undefined entries do not matter
MeanBetween ==
  Listed("stats") =>
    /\ RLe(R(Lowest(s.vals)), MeanOf(s.vals)) /\ RLe(MeanOf(s.vals), R(Highest(s.vals)))
    /\ MeanOf(s.vals) = MeanOf(Append(s.vals, UNDEF)) /\ VarianceOf(s.vals) = VarianceOf(Append(s.vals, UNDEF))
\* the variance is the mean of the squared deviations, zero only for equal values
VarianceDefinition ==
  Listed("stats") =>
    LET d == DefinedOf(s.vals)
        dev(k) == RSub(R(d[k]), MeanOf(s.vals))
    IN /\ VarianceOf(s.vals) = RDiv(RSum([k \in 1..Len(d) |-> RMul(dev(k), dev(k))]), R(Len(d)))
       /\ (VarianceOf(s.vals) = RZero) = (\A k \in 1..Len(d) : d[k] = d[1])
\* every element appears once; twice transposed is the original
Orders ==
  What = "arrays" =>
    CASE s.what = "flatten2d" ->
           LET t == Transposed2(s.vals, s.shape[1], s.shape[2])
           IN Transposed2(t, s.shape[2], s.shape[1]) = s.vals /\ {t[k] : k \in DOMAIN t} = {s.vals[k] : k \in DOMAIN s.vals}
      [] s.what = "flatten3d" ->
           LET t == Reversed3(s.vals, s.shape[1], s.shape[2], s.shape[3])
           IN Reversed3(t, s.shape[3], s.shape[2], s.shape[1]) = s.vals
      [] s.what = "meshgrid" ->
           {<<MeshA(s.x, s.y)[k], MeshB(s.x, s.y)[k]>> : k \in 1..(Len(s.x) * Len(s.y))}
             = {<<R(s.x[i]), R(s.y[j])>> : i \in 1..Len(s.x), j \in 1..Len(s.y)}
      [] OTHER -> TRUE
\* rotations are rigid and keep the anchor; the handedness shows on the axes
Rigid ==
  What = "rotate" =>
    LET p == Nums(s.pos) a == Nums(s.anchor) q == RotatePosition(p, s.angles, a)
    IN /\ Norm2(Minus(q, a)) = Norm2(Minus(p, a))
       /\ RotatePosition(a, s.angles, a) = a
       /\ Norm2(TurnAll(Nums(s.vel), s.angles)) = Norm2(Nums(s.vel))
       /\ Turn(<<RZero, ROne, RZero>>, 1, ROne, RZero) = <<RZero, RZero, ROne>>
       /\ Turn(<<RZero, RZero, ROne>>, 2, ROne, RZero) = <<ROne, RZero, RZero>>
       /\ Turn(<<ROne, RZero, RZero>>, 3, ROne, RZero) = <<RZero, ROne, RZero>>
\* ones are the largest values, and at most the fraction above q
Ones ==
  (What = "threshold" /\ s.vals # <<>> /\ QuantileLegal(s.q)) =>
    LET t == Threshold(s.vals, s.q)
        n == Cardinality({k \in DOMAIN s.vals : s.vals[k] # 0})
        up == {k \in DOMAIN t : t[k] = ROne}
    IN /\ \A i \in up, j \in DOMAIN t \ up : s.vals[i] > s.vals[j]
       /\ (\A k \in DOMAIN s.vals : s.vals[k] >= 0) =>
            Cardinality(up) * s.q[2] <= n * (s.q[2] - s.q[1]) /\ (s.q[1] = s.q[2] => up = {})

Complete ==
  CASE What = "lists" -> (s.what = "minmax" => DefinedOf(s.vals) # <<>>) /\ s.vals # <<>>
    [] What = "threshold" -> s.vals # <<>>
    [] OTHER -> TRUE
Session ==
  IF What = "lists" THEN [s EXCEPT !.kind = "helper"] @@ [shape |-> <<1, Len(s.vals), 1>>]
  ELSE IF What = "threshold" THEN [s EXCEPT !.shape = <<1, 1, Len(s.vals)>>]
  ELSE s
Emit == ("EMIT" \in DOMAIN IOEnv /\ Complete) => PrintT("SESSION " \o ToJson(Session))
=============================================================================
