-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic with the IEEE special values.  A rational is a   *)
(* pair <<num, den>> in lowest terms with den > 0; NaN is <<0, 0>>, the       *)
(* infinities are <<1, 0>> and <<-1, 0>>.  The harness logs every floating    *)
(* point result as the small rational it represents; a value that is not one  *)
(* is logged with denominator -1 and therefore equals no value of this module.*)
EXTENDS Integers, Sequences

NaN    == <<0, 0>>
PosInf == <<1, 0>>
NegInf == <<-1, 0>>
RZero  == <<0, 1>>
ROne   == <<1, 1>>

Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

R(n) == <<n, 1>>

\* n/d for integers, with the IEEE meaning of a zero denominator
Norm(n, d) ==
  IF d = 0 THEN <<Sgn(n), 0>>
  ELSE IF n = 0 THEN RZero
  ELSE LET g == GCD(Abs(n), Abs(d))
           s == IF d < 0 THEN -1 ELSE 1
       IN <<s * (n \div g), s * (d \div g)>>

IsNaN(a) == a = NaN
IsFin(a) == a[2] > 0

RAdd(a, b) ==
  IF IsFin(a) /\ IsFin(b)
    THEN IF a[2] = b[2] THEN Norm(a[1] + b[1], a[2])
         ELSE LET g == GCD(a[2], b[2])
              IN Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
  ELSE IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE IF IsFin(a) THEN b
  ELSE IF IsFin(b) THEN a
  ELSE IF a = b THEN a ELSE NaN

RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))

RMul(a, b) ==
  IF IsFin(a) /\ IsFin(b)
    THEN IF a[1] = 0 \/ b[1] = 0 THEN RZero
         ELSE LET g == GCD(Abs(a[1]), b[2])
                  h == GCD(Abs(b[1]), a[2])
              IN <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
  ELSE <<Sgn(a[1]) * Sgn(b[1]), 0>>      \* NaN has numerator 0, inf * 0 = NaN

\* a / b; both signs of zero divide like +0
RDiv(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE IF IsFin(b)
    THEN IF b[1] = 0 THEN <<Sgn(a[1]), 0>>
         ELSE IF IsFin(a) THEN RMul(a, IF b[1] > 0 THEN <<b[2], b[1]>> ELSE <<-b[2], -b[1]>>)
         ELSE <<a[1] * Sgn(b[1]), 0>>
  ELSE IF IsFin(a) THEN RZero ELSE NaN

\* a/b < c/d for positive b and d, without products: by whole parts and then by inverse remainders
RECURSIVE Below(_, _, _, _)
Below(a, b, c, d) ==
  LET p == a \div b q == c \div d
      r == a - p * b s == c - q * d
  IN IF p # q THEN p < q ELSE IF s = 0 THEN FALSE ELSE r = 0 \/ Below(d, s, b, r)
\* comparisons are false whenever NaN is involved
RLt(a, b) ==
  IF IsNaN(a) \/ IsNaN(b) THEN FALSE
  ELSE IF IsFin(a) /\ IsFin(b) THEN IF a[2] = b[2] THEN a[1] < b[1] ELSE Below(a[1], a[2], b[1], b[2])
  ELSE IF IsFin(a) THEN b[1] > 0
  ELSE IF IsFin(b) THEN a[1] < 0
  ELSE a[1] < b[1]
RGt(a, b) == RLt(b, a)
RLe(a, b) == RLt(a, b) \/ (a = b /\ ~IsNaN(a))

RECURSIVE RSumSeq(_, _)
RSumSeq(s, k) == IF k = 0 THEN RZero ELSE RAdd(RSumSeq(s, k - 1), s[k])
RSum(s) == RSumSeq(s, Len(s))
=============================================================================
