------------------------------- MODULE Helpers -------------------------------
(* Numeric helpers, rotations and thresholds.  Numbers are integers, UNDEF is *)
(* an undefined one.                                                          *)
EXTENDS Geometry, FiniteSets

DefinedOf(vals) == SelectSeq(vals, LAMBDA x : x # UNDEF)
RECURSIVE ISumTo(_, _)
ISumTo(s, k) == IF k = 0 THEN 0 ELSE ISumTo(s, k - 1) + s[k]
ISum(s) == ISumTo(s, Len(s))

MeanOf(vals) == LET d == DefinedOf(vals) IN Norm(ISum(d), Len(d))
\* population variance: (n sum(x^2) - sum(x)^2) / n^2
VarianceOf(vals) ==
  LET d == DefinedOf(vals) n == Len(d) s == ISum(d)
  IN Norm(n * ISum([k \in 1..n |-> d[k] * d[k]]) - s * s, n * n)

Lowest(vals) == LET d == {vals[k] : k \in 1..Len(vals)} \ {UNDEF} IN CHOOSE x \in d : \A y \in d : x <= y
Highest(vals) == LET d == {vals[k] : k \in 1..Len(vals)} \ {UNDEF} IN CHOOSE x \in d : \A y \in d : x >= y

Num(x) == IF x = UNDEF THEN NaN ELSE R(x)
Nums(s) == [k \in 1..Len(s) |-> Num(s[k])]

\* element (i,j) of a row-major list with rows of length n
MeshA(x, y) == [k \in 1..(Len(x) * Len(y)) |-> Num(x[((k - 1) \div Len(y)) + 1])]
MeshB(x, y) == [k \in 1..(Len(x) * Len(y)) |-> Num(y[((k - 1) % Len(y)) + 1])]
Mesh3(x, y, z, a) ==
  LET m == Len(y) n == Len(z)
  IN [k \in 1..(Len(x) * m * n) |->
        Num(IF a = 1 THEN x[((k - 1) \div (m * n)) + 1] ELSE IF a = 2 THEN y[(((k - 1) \div n) % m) + 1] ELSE z[((k - 1) % n) + 1])]

\* row-major elements of the transposed of a rows x cols array
Transposed2(vals, rows, cols) ==
  [k \in 1..(rows * cols) |-> vals[((k - 1) % rows) * cols + ((k - 1) \div rows) + 1]]
\* axes reversed: element (i,j,l) of the result is element (l,j,i)
Reversed3(vals, a, b, c) ==
  [k \in 1..(a * b * c) |->
     LET i == (k - 1) \div (b * a) j == ((k - 1) \div a) % b l == (k - 1) % a
     IN vals[(l * b + j) * c + i + 1]]

-----------------------------------------------------------------------------
(* Right-handed rotations about x, then y, then z; an angle is given by its   *)
(* sine and cosine.                                                           *)
Turn(p, axis, sn, cs) ==
  LET x == p[1] y == p[2] z == p[3]
      lin(a, s, b, t) == RAdd(RMul(a, s), RMul(b, t))
  IN CASE axis = 1 -> << x, lin(y, cs, z, RNeg(sn)), lin(y, sn, z, cs) >>
       [] axis = 2 -> << lin(x, cs, z, sn), y, lin(x, RNeg(sn), z, cs) >>
       [] axis = 3 -> << lin(x, cs, y, RNeg(sn)), lin(x, sn, y, cs), z >>
TurnAll(p, an) == Turn(Turn(Turn(p, 1, an[1].sin, an[1].cos), 2, an[2].sin, an[2].cos), 3, an[3].sin, an[3].cos)

Minus(p, q) == [a \in 1..3 |-> RSub(p[a], q[a])]
Plus(p, q) == [a \in 1..3 |-> RAdd(p[a], q[a])]
RotatePosition(p, an, anchor) == Plus(TurnAll(Minus(p, anchor), an), anchor)
Norm2(p) == RAdd(RAdd(RMul(p[1], p[1]), RMul(p[2], p[2])), RMul(p[3], p[3]))

-----------------------------------------------------------------------------
(* Cells above the quantile q (a rational in 0..1) of the non-zero values:    *)
(* the value with floor(n q) smaller ones before it, the largest for q = 1.   *)
Threshold(vals, q) ==
  LET nz == SelectSeq(vals, LAMBDA x : x # 0)
      n == Len(nz)
      pos == Min2((n * q[1]) \div q[2], n - 1)
      \* the value at (0-based) position pos of the sorted list
      th == CHOOSE t \in {nz[k] : k \in 1..n} :
              /\ Cardinality({k \in 1..n : nz[k] < t}) <= pos
              /\ Cardinality({k \in 1..n : nz[k] <= t}) > pos
  IN IF n = 0 THEN [k \in 1..Len(vals) |-> RZero]
     ELSE [k \in 1..Len(vals) |-> IF vals[k] > th THEN ROne ELSE RZero]
QuantileLegal(q) == q[1] >= 0 /\ q[1] <= q[2]
=============================================================================
