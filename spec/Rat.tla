-------------------------------- MODULE Rat --------------------------------
(* Exact rationals <<n,d>> in lowest terms, d > 0, extended with the floating *)
(* point specials: NaN = <<0,0>>, +Inf = <<1,0>>, -Inf = <<-1,0>>.            *)
(* Open = <<1,-1>>: as a specified value, left open (or beyond the range in   *)
(* which TLC computes); as a recorded value, not near any small rational.     *)
EXTENDS Integers, Sequences

NaN  == <<0, 0>>
Open == <<1, -1>>
IsOpen(a) == a[2] < 0
PInf == <<1, 0>>
NInf == <<-1, 0>>
IsNaN(a) == a[2] = 0 /\ a[1] = 0
IsFin(a) == a[2] # 0
Abs(n) == IF n < 0 THEN -n ELSE n

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

\* n/d for any integers
Q(n, d) ==
  IF d = 1 THEN <<n, 1>>
  ELSE IF d = 0 THEN (IF n = 0 THEN NaN ELSE IF n > 0 THEN PInf ELSE NInf)
  ELSE LET g == Gcd(Abs(n), Abs(d)) s == IF d < 0 THEN -1 ELSE 1
       IN <<(s * n) \div g, (s * d) \div g>>

I(n) == <<n, 1>>
Zero == <<0, 1>>
One  == <<1, 1>>

LIM == 1000000000
\* the product would leave the range of exact integers
Big(m, n) == m # 0 /\ Abs(n) > LIM \div Abs(m)
BigSum(m, n) == Abs(m) > LIM \/ Abs(n) > LIM
RNeg(a) == IF IsOpen(a) THEN Open ELSE <<-a[1], a[2]>>
RAdd(a, b) ==
  IF BigSum(a[1], b[1]) THEN Open
  ELSE IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] + b[1], 1>>
  ELSE IF IsOpen(a) \/ IsOpen(b) THEN Open
  ELSE IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE IF ~IsFin(a) THEN (IF IsFin(b) \/ a = b THEN a ELSE NaN)
  ELSE IF ~IsFin(b) THEN b
  ELSE IF a[2] = b[2] THEN Q(a[1] + b[1], a[2])
  ELSE LET g == Gcd(a[2], b[2])
           p == b[2] \div g   q == a[2] \div g
       IN IF Big(a[1], p) \/ Big(b[1], q) \/ Big(a[2], p) THEN Open ELSE Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RSub(a, b) == RAdd(a, RNeg(b))
Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
RMul(a, b) ==
  IF Big(a[1], b[1]) THEN Open
  ELSE IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] * b[1], 1>>
  ELSE IF IsOpen(a) \/ IsOpen(b) THEN Open
  ELSE IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE IF ~IsFin(a) \/ ~IsFin(b) THEN Q(Sgn(a[1]) * Sgn(b[1]), 0)
  ELSE LET g1 == Gcd(Abs(a[1]), b[2]) g2 == Gcd(Abs(b[1]), a[2])
           h1 == IF g1 = 0 THEN 1 ELSE g1   h2 == IF g2 = 0 THEN 1 ELSE g2
       IN IF Big(a[2] \div h2, b[2] \div h1) THEN Open ELSE Q((a[1] \div h1) * (b[1] \div h2), (a[2] \div h2) * (b[2] \div h1))
RDiv(a, b) ==
  IF IsOpen(a) \/ IsOpen(b) THEN Open
  ELSE IF IsNaN(a) \/ IsNaN(b) THEN NaN
  ELSE IF ~IsFin(b) THEN (IF IsFin(a) THEN Zero ELSE NaN)
  ELSE IF b[1] = 0 THEN Q(Sgn(a[1]), 0)
  ELSE IF ~IsFin(a) THEN Q(Sgn(a[1]) * Sgn(b[1]), 0)
  ELSE RMul(a, IF b[1] < 0 THEN <<-b[2], -b[1]>> ELSE <<b[2], b[1]>>)

\* order on non-NaN values (FALSE when a NaN is involved, as in IEEE)
RLt(a, b) ==
  IF a[2] = 1 /\ b[2] = 1 THEN a[1] < b[1]
  ELSE IF IsNaN(a) \/ IsNaN(b) THEN FALSE
  ELSE IF ~IsFin(a) \/ ~IsFin(b) THEN
       (IF IsFin(a) THEN 0 ELSE a[1]) < (IF IsFin(b) THEN 0 ELSE b[1])
  ELSE IF Big(a[1], b[2]) \/ Big(b[1], a[2]) THEN (a[1] \div a[2]) < (b[1] \div b[2])     \* (approximate beyond the range)
  ELSE a[1] * b[2] < b[1] * a[2]
REq(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ a = b
RLe(a, b) == RLt(a, b) \/ REq(a, b)
RAbs(a) == IF IsOpen(a) THEN Open ELSE <<Abs(a[1]), a[2]>>
RMin(a, b) == IF IsOpen(a) \/ IsOpen(b) THEN Open ELSE IF IsNaN(a) \/ IsNaN(b) THEN NaN ELSE IF RLt(b, a) THEN b ELSE a
RMax(a, b) == IF IsOpen(a) \/ IsOpen(b) THEN Open ELSE IF IsNaN(a) \/ IsNaN(b) THEN NaN ELSE IF RLt(a, b) THEN b ELSE a

RECURSIVE RSumFrom(_, _)
RSumFrom(s, i) == IF i > Len(s) THEN Zero ELSE RAdd(s[i], RSumFrom(s, i + 1))
RSum(s) == RSumFrom(s, 1)
=============================================================================
