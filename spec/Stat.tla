-------------------------------- MODULE Stat --------------------------------
(* Statistics of paired and unpaired samples of small integers, in exact       *)
(* integer arithmetic up to the last division; fractions are given in units of *)
(* 1/10000 (One).  A sample is a sequence of integers, NaN a missing point.    *)
(* The scaled sums over the n points present are                               *)
(*   A = n Sxx - Sx^2   B = n Syy - Sy^2   C = n Sxy - Sx Sy                   *)
(* so that var x = A / n(n-1), cov = C / n(n-1), slope = C / A, r^2 = C^2/AB.  *)
EXTENDS Integers, Sequences
NaN == 2000000000
One == 10000
Ab(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Total(f) == SumTo(f, Len(f))
Present(x) == SelectSeq(x, LAMBDA v : v # NaN)
\* pairs with both members present
Pairs(x, y) == SelectSeq([i \in 1..Len(x) |-> <<x[i], y[i]>>], LAMBDA p : p[1] # NaN /\ p[2] # NaN)
S1(ps) == Total([i \in 1..Len(ps) |-> ps[i][1]])
S2(ps) == Total([i \in 1..Len(ps) |-> ps[i][2]])
S12(ps) == Total([i \in 1..Len(ps) |-> ps[i][1] * ps[i][2]])
S11(ps) == Total([i \in 1..Len(ps) |-> ps[i][1] * ps[i][1]])
S22(ps) == Total([i \in 1..Len(ps) |-> ps[i][2] * ps[i][2]])
\* everything about the pairs
Of(ps) == LET n == Len(ps) sx == S1(ps) sy == S2(ps)
          IN [n |-> n, sx |-> sx, sy |-> sy, A |-> n * S11(ps) - sx * sx, B |-> n * S22(ps) - sy * sy, C |-> n * S12(ps) - sx * sy]
One1(xs) == Of([i \in 1..Len(xs) |-> <<xs[i], 0>>])
\* num / den to One, rounded down (0 <= num, 0 < den < 2*10^8): long division,
\* the whole part held to at most 20000
RECURSIVE Digits(_, _, _, _)
Digits(q, r, den, k) == IF k = 0 THEN q ELSE Digits(10 * q + (10 * r) \div den, (10 * r) % den, den, k - 1)
Frac(num, den) == LET q == num \div den IN IF q >= 20000 THEN 20000 * One ELSE Digits(q, num % den, den, 4)
SFrac(num, den) == IF num < 0 THEN -Frac(-num, den) ELSE Frac(num, den)
\* r^2 (A, B > 0); dividing by the smaller first keeps the error below one unit or so
R2(q) == LET s == Min2(q.A, q.B) t == Max2(q.A, q.B) IN (((Ab(q.C) * One) \div s) * Ab(q.C)) \div t
RECURSIVE Root(_, _)
Root(n, g) == LET h == (g + n \div g) \div 2 IN IF h >= g THEN g ELSE Root(n, h)
ISqrt(n) == IF n <= 0 THEN 0 ELSE Root(n, n)
\* the two-sided certainty 1 - p of Student's t with an even number nu of degrees
\* of freedom, where s2 = t^2 / (nu + t^2) (both to One):
\*    s (1 + c/2 + 3 c^2/8 + ...),  s = sqrt(s2), c = 1 - s2,  nu/2 terms
RECURSIVE Terms(_, _, _, _)
Terms(k, m, term, c) == IF k >= m THEN 0 ELSE term + Terms(k + 1, m, (((term * c) \div One) * (2 * k + 1)) \div (2 * k + 2), c)
Sure(s2, nu) == IF nu <= 0 THEN 0 ELSE Min2(One, (ISqrt(s2 * One) * Terms(0, nu \div 2, One, One - s2)) \div One)
\* s2 from t^2 = num / den
Angle(num, den, nu) == IF num = 0 THEN 0 ELSE Frac(num, num + nu * den)
P(num, den, nu) == One - Sure(Angle(num, den, nu), nu)
\* the least and the most p may be, for t^2 = num/den and nu degrees of freedom (in
\* units of 1/One): exact for even nu, else between the even numbers about it
PMost(num, den, nu4) == LET e == 2 * (nu4 \div (2 * One)) IN P(num, den, e)
PLeast(num, den, nu4) == LET e == 2 * (nu4 \div (2 * One)) IN P(num, den, IF e * One = nu4 THEN e ELSE e + 2)
\* ---- the statistics of one point; ps: pairs, fac: divisor of the sample size ----
\* correlation and regression share t^2 = nu r^2 / (1 - r^2), s2 = r^2
Degrees(n, fac) == Frac(n, fac) - 2 * One
ROf(q) == LET ab == q.A * q.B IN IF ab < 200000 THEN SFrac(100 * q.C, ISqrt(ab * One)) ELSE SFrac(q.C, ISqrt(ab))
ROk(q, r) == Ab(r - ROf(q)) <= 3 + Ab(r) \div 300
\* two-sided p of correlation q with nu4 degrees of freedom
PRof(q, nu4, e) == LET k == nu4 \div 100 r == Min2(One, R2(q)) IN One - Sure(IF r = 0 THEN 0 ELSE Frac(k * r, k * r + e * 100 * (One - r)), e)
PTolOf(p) == IF p > 9000 THEN 600 ELSE IF p > 7000 THEN 300 ELSE 60
PR(q, nu4, p) == LET e == 2 * (nu4 \div (2 * One))
                 IN p <= PRof(q, nu4, e) + PTolOf(p) /\ p >= PRof(q, nu4, IF e * One = nu4 THEN e ELSE e + 2) - PTolOf(p)
PT(num, den, nu4, p) == p <= PMost(num, den, nu4) + PTolOf(p) /\ p >= PLeast(num, den, nu4) - PTolOf(p)
Valid(p) == p = NaN \/ (0 <= p /\ p <= One)
Near(a, b, tol) == a # NaN /\ Ab(a - b) <= tol
F(b, c) == IF b THEN <<>> ELSE <<c>>
\* o: what was reported of one point (field absent: -NaN).  Fields are to One, se and sm to 1000.
Absent == -NaN
Said(o, f) == o[f] # Absent
Ok(o, f, b, c) == IF Said(o, f) THEN F(b, c) ELSE <<>>
Correlate(ps, o) ==
  LET q == Of(ps) def == q.n > 0 /\ q.A > 0 /\ q.B > 0
  IN Ok(o, "r", IF def THEN o.r # NaN /\ Ab(o.r) <= One + 1 /\ ROk(q, o.r) ELSE o.r = NaN, "correlation")
     \o Ok(o, "r2", IF def THEN Near(o.r2, R2(q), 3) ELSE o.r2 = NaN, "r2")
     \o Ok(o, "p", Valid(o.p) /\ (IF def /\ q.n > 2 THEN o.p # NaN /\ PR(q, (q.n - 2) * One, o.p) ELSE ~def => o.p = NaN), "p")
Regress(ps, fac, o) ==
  LET q == Of(ps) nu == Degrees(q.n, fac)
      none == q.n < 2 \/ q.A = 0
      def == ~none /\ nu > 0
      \* residual variance times n (to One): (B - C^2/A) = B (1 - r^2)
      res == IF q.B = 0 THEN 0 ELSE Max2(0, (q.B * Max2(0, One - R2(q))) \div q.n)
      V(s, of, slack) == LET k == Frac(of, nu) IN s # NaN /\ s >= 0 /\ Ab((s * s) \div 100 - k) <= slack
  IN Ok(o, "m", IF def THEN Near(o.m, SFrac(q.C, q.A), 2) ELSE none => o.m = NaN, "slope")
     \o Ok(o, "b", IF def THEN Near(o.b \div 10, SFrac(q.sy * q.A - q.C * q.sx, q.n * q.A) \div 10, 2) ELSE none => o.b = NaN, "intercept")
     \o Ok(o, "r2", IF def /\ q.B > 0 THEN Near(o.r2, R2(q), 3) ELSE (none \/ (q.B = 0 /\ def)) => (o.r2 = NaN \/ (q.B = 0 /\ q.A > 0 /\ o.r2 = 0)), "r2")
     \* (se)^2 nu = res, to 1/100 or so relative to the spread
     \o Ok(o, "se", IF def THEN V(o.se, res, Max2(6, Frac(2 * q.B, q.n * nu) + (3 * o.se) \div 100)) ELSE none => o.se = NaN, "residual-deviation")
     \o Ok(o, "sm", IF def THEN (o.sm # NaN /\ o.sm >= 0 /\ Ab((o.sm * o.sm) \div 100 - Frac(Frac(res, nu), Max2(1, Frac(q.A, q.n)))) <= Max2(6, (4 * q.B * One) \div Max2(1, (q.A * nu)) + (3 * o.sm) \div 100)) ELSE none => o.sm = NaN, "slope-deviation")
     \o Ok(o, "p", Valid(o.p) /\ (IF def /\ q.B > 0 THEN o.p # NaN /\ PR(q, nu, o.p) ELSE none => o.p = NaN), "p")
\* p < alpha just when the confidence interval does not reach 0 (alpha: to One)
Agree(d, ci, p, alpha) == (d = NaN \/ ci = NaN \/ p = NaN \/ d = Absent \/ ci = Absent \/ p = Absent \/ Ab(p - alpha) <= 20 \/ Ab(Ab(d) - ci) <= 3) \/ ((p < alpha) <=> (Ab(d) > ci))
Paired(ps, fac, alpha, o) ==
  LET q == One1([i \in 1..Len(ps) |-> ps[i][1] - ps[i][2]]) eN == q.n \div fac
      num(k) == q.sx * q.sx * (q.n - 1) * k den == q.n * q.A
      nu == (eN - 1) * One
  IN Ok(o, "d", IF q.n = 0 THEN o.d = NaN ELSE Near(o.d, SFrac(q.sx, q.n), 1), "mean-difference")
     \o Ok(o, "df", q.n = 0 \/ Near(o.df, nu, 1), "degrees-of-freedom")
     \o Ok(o, "p", Valid(o.p) /\ (IF q.n > 1 /\ eN > 1 /\ q.A > 0 THEN o.p # NaN /\ o.p <= PMost(num(eN - 1), den, nu) + PTolOf(o.p) /\ o.p >= PLeast(num(eN), den, nu) - PTolOf(o.p)
                                  ELSE (eN < 2 => o.p = NaN) /\ (q.A = 0 /\ q.sx = 0 => o.p # 0)), "p")
     \o Ok(o, "ci", (o.ci = NaN \/ o.ci >= 0) /\ (q.n > 1 /\ eN > 1 /\ q.A > 0 => o.ci # NaN) /\ Agree(o.d, o.ci, o.p, alpha), "confidence-interval")
NonZero(xs, fac, alpha, o) ==
  LET q == One1(Present(xs)) eN == q.n \div fac num == q.sx * q.sx * eN * (q.n - 1) den == q.n * q.A nu == (eN - 1) * One
  IN Ok(o, "m", IF q.n = 0 THEN o.m = NaN ELSE Near(o.m, SFrac(q.sx, q.n), 1), "mean")
     \o Ok(o, "p", Valid(o.p) /\ (IF eN > 1 /\ q.A > 0 THEN o.p # NaN /\ PT(num, den, nu, o.p) ELSE (eN < 2 => o.p = NaN) /\ (eN >= 2 /\ q.sx # 0 => o.p = NaN \/ o.p = 0) /\ (q.sx = 0 => o.p # 0)), "p")
     \o Ok(o, "ci", (o.ci = NaN \/ o.ci >= 0) /\ (eN > 1 /\ q.A > 0 => o.ci # NaN) /\ Agree(o.m, o.ci, o.p, alpha), "confidence-interval")
\* unpaired: each sample by itself.  Variances of the means to 1000.
Difference(xs, ys, fx, fy, alpha, o) ==
  LET x == One1(Present(xs)) y == One1(Present(ys))
      ex == x.n \div fx ey == y.n \div fy
      full == ex > 1 /\ ey > 1
      v(q, e) == Frac(q.A, q.n * (q.n - 1) * e) \div 10
      vx == v(x, ex) vy == v(y, ey) V == vx + vy
      dn == x.sx * y.n - y.sx * x.n
      \* degrees of freedom to One
      nu == LET g == IF V > 10000 THEN 10 ELSE 1 ux == vx \div g uy == vy \div g k == (ux * ux) \div (ex - 1) + (uy * uy) \div (ey - 1) IN IF k = 0 THEN 2 * One ELSE Frac((ux + uy) * (ux + uy), k)
      d2 == LET dd == SFrac(dn, x.n * y.n) IN ((Ab(dd) \div 10) * (Ab(dd) \div 10)) \div 1000
  IN Ok(o, "d", IF x.n = 0 \/ y.n = 0 THEN o.d = NaN ELSE Near(o.d, SFrac(dn, x.n * y.n), 1), "difference-of-means")
     \o Ok(o, "df", IF full /\ V >= 100 THEN Near(o.df, nu, nu \div 50 + 200) ELSE (~full => o.df = NaN), "degrees-of-freedom")
     \o Ok(o, "p", Valid(o.p) /\ (IF full /\ V >= 100 THEN o.p # NaN /\ PT(d2, V, nu, o.p) ELSE (~full => o.p = NaN) /\ (dn = 0 => o.p # 0)), "p")
     \o Ok(o, "ci", (o.ci = NaN \/ o.ci >= 0) /\ (full /\ V >= 100 => o.ci # NaN) /\ Agree(o.d, o.ci, o.p, alpha), "confidence-interval")
\* least squares on several regressors: the normal equations.  rows: <<x1, .., xk, y>>, all present;
\* b, sb, p: sequences; r2, se single.  const: some regressor is constant and not 0
Dot(rows, i, j) == Total([r \in 1..Len(rows) |-> rows[r][i] * rows[r][j]])
Multi(rows, k, const, o) ==
  LET n == Len(rows) y == k + 1 yy == Dot(rows, y, y) sy == Total([r \in 1..n |-> rows[r][y]])
      xy == [i \in 1..k |-> Dot(rows, i, y)]
      left(i) == Total([j \in 1..k |-> Dot(rows, i, j) * o.b[j]])
      slack(i) == Total([j \in 1..k |-> Ab(Dot(rows, i, j))]) + 2
      sse == yy * One - Total([i \in 1..k |-> xy[i] * o.b[i]])
      sst == n * yy - sy * sy
  IN F(\A i \in 1..k : o.b[i] # NaN /\ Ab(left(i) - xy[i] * One) <= slack(i), "normal-equations")
     \o F(\A i \in 1..k : Valid(o.p[i]), "p")
     \* in one fit the same degrees of freedom: the larger |b|/sb, the smaller p
     \o F(\A i, j \in 1..k : (o.sb[i] > 5 /\ o.sb[j] > 5 /\ o.sb[i] < 50000 /\ o.sb[j] < 50000 /\ Ab(o.b[i]) < 20000 /\ Ab(o.b[j]) < 20000 /\ (Ab(o.b[i]) * 100) \div o.sb[i] > ((Ab(o.b[j]) * 100) \div o.sb[j]) + 20) => o.p[i] <= o.p[j] + 2, "p-grows-with-evidence")
     \o F(\A i \in 1..k : o.sb[i] = NaN \/ o.sb[i] >= 0, "coefficient-deviation")
     \o F(~const \/ sst <= 0 \/ Near(o.r2, One - (n * sse) \div sst, 10 + (n * (2 + Total([i \in 1..k |-> Ab(xy[i])]))) \div sst), "r2")
     \o F(o.se = NaN \/ (o.se >= 0 /\ (n <= k \/ ((o.se * o.se) \div 100 <= Max2(0, sse) \div (n - k) + 60 + o.se \div 20 /\ (o.se * o.se) \div 100 >= Max2(0, sse) \div n - 60 - o.se \div 20))), "residual-deviation")
=============================================================================
