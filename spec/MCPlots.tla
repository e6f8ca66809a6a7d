------------------------------- MODULE MCPlots -------------------------------
(* What plots show of every small field.  A cell is empty or holds one        *)
(* particle of the first step (and of the second, for a field to compare      *)
(* with), so that the dataset says what is to be seen; all ways to draw it    *)
(* are called one after the other.                                            *)
EXTENDS Interface, IOUtils
CONSTANTS Kind, Cells2

VARIABLES one, two, h, e, k
vars == <<one, two, h, e, k>>

G == [kind |-> "cart", cells |-> IF Kind = "arrows" THEN <<2, 2, 1>> ELSE <<2, 1, 2>>, lim |-> << <<0, 4>>, <<0, 8>>, <<0, 2>> >>]
N == 4
Mid(c) == LET p == PlaneCells(G, IF Kind = "arrows" THEN 3 ELSE 2)[c]
          IN IF Kind = "arrows" THEN <<1 + 2 * p[1], 2 + 4 * p[2], 1>> ELSE <<1 + 2 * p[1], 4, p[2]>>
\* nothing, at rest, ...
V == IF Kind = "arrows" THEN << <<0, 0, 0>>, <<3, 4, 0>>, <<-6, 8, 0>>, <<1, 0, 0>> >>
     ELSE << <<0, 0, 0>>, <<3, 0, 4>>, <<0, -5, 0>>, <<-6, 0, 8>> >>
Parity2 == Kind \in {"parity", "vparity"}
Many == IF Parity2 THEN 2 ELSE Len(V)
Part(c, v) == [p |-> Mid(c), v |-> V[v], r |-> 1, c |-> 0, d |-> 1, id |-> c, ty |-> 1]
Filled(s) == SelectSeq([c \in 1..N |-> c], LAMBDA c : s[c] > 0)
Parts(s) == LET f == Filled(s) IN [j \in 1..Len(f) |-> Part(f[j], s[f[j]])]
DS == [steps |-> << [t |-> 0, parts |-> Parts(one)], [t |-> 1, parts |-> Parts(two)] >>, dims |-> G.lim, vmag |-> <<0, 3, 10>>]
Fs == << [name |-> "a.h5", mgr |-> "t", type |-> 1, ds |-> DS] >>

C(on, name, pos, kw) == [c |-> name, on |-> on, pos |-> pos, kw |-> kw]
Ref(j) == [t |-> "ref", v |-> j]
Ints(s) == [t |-> "list", v |-> [j \in DOMAIN s |-> AInt(s[j])]]
NoKw == <<>>
Plane == [selection |-> AStr("plane"), index |-> AInt(0)]
Mode(m) == [scaling_mode |-> AStr(m)]
Lo == [min_size |-> AInt(2)]
Hi == [max_size |-> [t |-> "num", v |-> <<13, 2>>]]
Tiny == [max_size |-> [t |-> "num", v |-> <<1, 2>>]]
Colour == [colour_map |-> [t |-> "str", v |-> "Viridis", low |-> "viridis"]]

\* fields 4 (step one) and 6 (step two), plotters 7 and 8; scalars as numbers of particles or speeds
Scalar(m) == << C(1, "set_time", <<AInt(0), AInt(0)>>, NoKw), m, C(1, "set_time", <<AInt(1), AInt(1)>>, NoKw), m >>
Prefix ==
  << C(0, "Data", <<AStr("a.h5")>>, NoKw), C(0, "Grid", <<Ref(1), Ints(G.cells)>>, NoKw) >>
  \o Scalar(IF Kind \in {"maps", "parity"} THEN C(1, "velocityfield", <<Ref(2)>>, [mode |-> AStr("z")]) ELSE C(1, "vectorfield", <<Ref(2)>>, NoKw))
  \o << C(0, "Plotter2D", <<Ref(4)>>, NoKw), C(0, "Plotter2D", <<Ref(6)>>, NoKw) >>
Drawn ==
  CASE Kind = "arrows" ->
         LET A == <<AInt(2)>>
         IN << C(7, "quiver_plot", A, NoKw), C(7, "quiver_plot", A, Mode("min") @@ Lo), C(7, "quiver_plot", A, Mode("max") @@ Hi @@ Colour),
               C(7, "quiver_plot", A, Mode("minmax") @@ Lo @@ Hi @@ Plane), C(7, "quiver_plot", A, Mode("half_node")),
               C(7, "quiver_plot", A, Mode("full_node") @@ Plane), C(7, "unit_vector_plot", A, NoKw),
               C(7, "unit_vector_plot", A, Mode("max") @@ Tiny @@ Colour) >>
    [] Kind = "maps" ->
         LET A(x) == <<AInt(x)>>
         IN << C(7, "scalar_map", A(0), NoKw), C(7, "scalar_map", A(1), Colour), C(7, "scalar_map", A(2), NoKw), C(7, "scalar_map", A(2), Plane),
               C(7, "scalar_contour", A(0), NoKw), C(7, "scalar_contour", A(1), Plane), C(7, "scalar_contour", A(2), Colour), C(4, "plot", A(1), NoKw) >>
    [] OTHER ->
         LET A(j, x) == <<Ref(j), AInt(x)>>
         IN << C(7, "parity_plot", A(6, 1), NoKw), C(8, "parity_plot", A(4, 1), NoKw), C(7, "parity_plot", A(4, 0), NoKw),
               C(7, "parity_map", A(6, 1), Plane), C(8, "parity_map", A(4, 1), NoKw), C(7, "parity_map", A(4, 2), NoKw),
               C(7, "parity_contour", A(6, 0), Colour), C(7, "parity_map", A(6, 2), NoKw) >>
Calls == Prefix \o Drawn
NP == Len(Prefix)

Contents(m) == [1..N -> 0..m]
Init ==
  /\ one \in Contents(Many)
  /\ two \in (IF Parity2 THEN Contents(Cells2) ELSE {[c \in 1..N |-> 0]})
  /\ h = <<>> /\ e = <<>> /\ k = 1
Next ==
  /\ k <= Len(Calls)
  /\ LET o == Outcome(h, Fs, Calls[k]) IN h' = After(o) /\ e' = IF o.ok THEN o.e ELSE [t |-> "refused"]
  /\ k' = k + 1 /\ UNCHANGED <<one, two>>
Shows(j) == k = NP + j + 1

-----------------------------------------------------------------------------
Accepted == k > 1 => e.t # "refused"
Vel(s, c) == V[s[c]]
Empty(s, c) == s[c] = 0
Sq(x) == x * x
\* speed in the plane, squared
Len2Of(c) == Sq(Vel(one, c)[1]) + Sq(Vel(one, c)[2])
B == e.arrows[1].b
Dx == 2
Dy == 4
Lengths(j) == Shows(j) => Len(B) = N
\* against the spacing of the cells
Share(b) == RAdd(RDiv(b.q[1], R(Dx * Dx)), RDiv(b.q[2], R(Dy * Dy)))
Moving == {c \in 1..N : ~Empty(one, c) /\ Len2Of(c) > 0}
Arrows ==
  Kind = "arrows" /\ k > NP + 1 =>
    /\ Len(B) = N
    /\ \A c \in 1..N :
         /\ Empty(one, c) => IsNaN(Len2(B[c]))
         /\ c \in Moving =>
              LET v == Vel(one, c) l == Len2(B[c])
              IN /\ B[c].s = <<Sgn(v[1]), Sgn(v[2])>>
                 \* only distances of cells distort a direction
                 /\ k <= NP + 5 => RMul(B[c].q[1], R(Sq(v[2]))) = RMul(B[c].q[2], R(Sq(v[1])))
                 /\ Shows(1) => l = R(Len2Of(c))
                 /\ Shows(2) => ~RLt(l, R(4)) /\ (Len2Of(c) >= 4 => l = R(Len2Of(c)))
                 /\ Shows(3) => ~RGt(l, <<169, 4>>) /\ (4 * Len2Of(c) <= 169 => l = R(Len2Of(c)))
                 /\ Shows(4) => ~RLt(l, R(4)) /\ ~RGt(l, <<169, 4>>)
                 /\ Shows(5) => ~RGt(Share(B[c]), <<1, 4>>)
                 /\ Shows(6) => ~RGt(Share(B[c]), ROne)
                 /\ Shows(7) => Share(B[c]) = <<1, 4>>
                 /\ Shows(8) => ~RGt(l, <<1, 4>>)
    /\ k <= NP + 7 => \A c, d \in Moving : Len2Of(c) < Len2Of(d) => ~RGt(Len2(B[c]), Len2(B[d]))
    /\ Moving # {} => /\ Shows(5) => \E c \in Moving : Share(B[c]) = <<1, 4>>
                      /\ Shows(6) => \E c \in Moving : Share(B[c]) = ROne

\* cells of the plane across axis x, row by row, each with the cells of the grid behind it
Rows2(x) == IF x = 1 THEN << {1, 3}, {2, 4} >> ELSE IF x = 2 THEN << {1}, {2}, {3}, {4} >> ELSE << {1, 2}, {3, 4} >>
Seen(s, S) == {c \in S : ~Empty(s, c)}
MeanOf(s, S, d) ==
  LET seen == Seen(s, S) q == SetToSeq(seen)
  IN IF seen = {} THEN NaN ELSE RDiv(RSum([j \in DOMAIN q |-> R(Vel(s, q[j])[d])]), R(Cardinality(seen)))
\* what a map across axis x shows of vertical speeds; plane "at" only, or all
ScalarAt(s, x, at, k2) == LET S == Rows2(x)[k2] IN MeanOf(s, IF at = 0 THEN S ELSE {CHOOSE c \in S : \A d \in S : c <= d}, 3)
Z == e.maps[1].f.z
MapShows(x, at) == Len(Z) = Len(Rows2(x)) /\ \A c \in 1..Len(Z) : Z[c] = ScalarAt(one, x, at, c)
Maps ==
  Kind = "maps" =>
    /\ Shows(1) => MapShows(1, 0) /\ e.maps[1].cm = "none" /\ e.maps[1].type = "heatmap"
    /\ Shows(2) => MapShows(2, 0) /\ e.maps[1].cm = "viridis"
    /\ Shows(3) => MapShows(3, 0)
    /\ Shows(4) => MapShows(3, 1)
    /\ Shows(5) => MapShows(1, 0) /\ e.maps[1].type = "contour"
    /\ Shows(6) => MapShows(2, 1) /\ e.maps[1].type = "contour"
    /\ Shows(7) => MapShows(3, 0) /\ e.maps[1].cm = "viridis"
    /\ Shows(8) => \A c \in 1..4 : e.simple.z[c] = ScalarAt(one, 2, 0, c)

\* components compared: all, or vertical speeds alone
Dims(x) == IF Kind = "vparity" THEN Rest(x) ELSE <<3>>
Pairs == e.marks[1].pairs
Compared(s, t, x) ==
  LET n == Len(Rows2(x)) IN
  /\ Len(Pairs) = n * Len(Dims(x))
  /\ \A j \in 1..Len(Dims(x)), c \in 1..n :
       Pairs[(j - 1) * n + c] = << MeanOf(s, Rows2(x)[c], Dims(x)[j]), MeanOf(t, Rows2(x)[c], Dims(x)[j]) >>
Sum2(s, x, at, c) ==
  LET S == Rows2(x)[c] T == IF at = 0 THEN S ELSE {CHOOSE d \in S : \A y \in S : d <= y}
      sq(d) == LET m == MeanOf(s, T, Rest(x)[d]) IN RMul(m, m)
  IN RAdd(sq(1), sq(2))
Value(s, x, at, c) == IF Kind = "vparity" THEN Sum2(s, x, at, c) ELSE ScalarAt(s, x, at, c)
Delta(s, t, x, at) ==
  LET m == e.maps[1] IN
  /\ \A c \in 1..Len(Rows2(x)) : Shown(m.f)[c] = Value(s, x, at, c) /\ Shown(m.f2)[c] = Value(t, x, at, c)
  /\ Len(Shown(m.f)) = Len(Rows2(x)) /\ Len(Shown(m.f2)) = Len(Rows2(x))
Parities ==
  Kind \in {"parity", "vparity"} =>
    /\ Shows(1) => Compared(one, two, 2)
    /\ Shows(2) => Compared(two, one, 2)
    /\ Shows(3) => Compared(one, one, 1) /\ \A p \in DOMAIN Pairs : Pairs[p][1] = Pairs[p][2]
    /\ Shows(4) => Delta(one, two, 2, 1)
    /\ Shows(5) => Delta(two, one, 2, 0)
    /\ Shows(6) => Delta(one, one, 3, 0)
    /\ Shows(7) => Delta(one, two, 1, 0) /\ e.maps[1].cm = "viridis"
    /\ Shows(8) => Delta(one, two, 3, 0)
Emit == (k > Len(Calls) /\ "EMIT" \in DOMAIN IOEnv) =>
          PrintT("SESSION " \o ToJson([kind |-> "python", files |-> Fs, calls |-> Calls]))
=============================================================================
