------------------------------ MODULE MC_Stat ------------------------------
(* All pairs of samples of N points from Vals (NaN: missing): laws of the      *)
(* statistics, and the samples as test cases.                                  *)
EXTENDS Stat, FiniteSets, Json, TLC, Sample
CONSTANTS N, SampleOf
VARIABLES x, y
vars == <<x, y>>
Vals == {-1, 0, 2, NaN}
S == [1..N -> Vals]
Rank(v) == CASE v = NaN -> 3 [] v = -1 -> 0 [] v = 0 -> 1 [] OTHER -> 2
\* the order of the points does not matter: take them sorted
Key(a, b) == 4 * Rank(a) + Rank(b)
Init == x = <<>> /\ y = <<>>
Next == /\ Len(x) < N /\ \E a, b \in Vals : (IF x = <<>> THEN TRUE ELSE Key(x[Len(x)], y[Len(y)]) <= Key(a, b)) /\ x' = Append(x, a) /\ y' = Append(y, b)
Full == Len(x) = N
ps == Pairs(x, y)
q == Of(ps)
def == q.A > 0 /\ q.B > 0
Swap == [i \in 1..Len(ps) |-> <<ps[i][2], ps[i][1]>>]
qs == Of(Swap)
\* Cauchy-Schwarz; r symmetric; r^2 = 1 just when all points lie on a line
Corr == Full /\ def => /\ q.C * q.C <= q.A * q.B /\ R2(q) <= One /\ R2(q) = R2(qs)
                       /\ (q.C * q.C = q.A * q.B) <=> (\A i, j, k \in 1..Len(ps) : (ps[i][1] - ps[j][1]) * (ps[i][2] - ps[k][2]) = (ps[i][1] - ps[k][1]) * (ps[i][2] - ps[j][2]))
\* the residuals of the line y = C/A x + b, times n A, add up to 0 and are orthogonal to x
Resid(i) == q.n * q.A * ps[i][2] - q.n * q.C * ps[i][1] - (q.sy * q.A - q.C * q.sx)
Line == Full /\ q.A > 0 => Total([i \in 1..Len(ps) |-> Resid(i)]) = 0 /\ Total([i \in 1..Len(ps) |-> Resid(i) * ps[i][1]]) = 0
\* the least squares: no other slope and intercept in quarters do better (compared at n A = 1)
\* the order of the points does not matter; nor does cutting them in two
Cut(k) == LET u == Of(SubSeq(ps, 1, k)) v == Of(SubSeq(ps, k + 1, Len(ps))) IN u.n + v.n = q.n /\ u.sx + v.sx = q.sx /\ S12(SubSeq(ps, 1, k)) + S12(SubSeq(ps, k + 1, Len(ps))) = S12(ps)
Chunks == Full => \A k \in 0..Len(ps) : Cut(k)
\* certainty grows with s and shrinks with the degrees of freedom at fixed t (to rounding)
PMono == Full /\ def /\ q.C # 0 => \A e \in {2, 4, 6} : Sure(R2(q), e) <= Sure(R2(q), e + 2) + 2 /\ PRof(q, 4 * One, e + 2) <= PRof(q, 4 * One, e) + (IF R2(q) < 300 THEN 40 ELSE 3)
         /\ (R2(q) < One => PRof(q, 4 * One, e) > 0)
\* the difference of means of the common points is the mean difference
Diff == Full /\ q.n > 0 => One1([i \in 1..Len(ps) |-> ps[i][1] - ps[i][2]]).sx = q.sx - q.sy
\* exact answers are accepted, wrong ones are not
Say(f) == [g \in {"r", "r2", "p", "m", "b", "se", "sm", "d", "df", "ci"} |-> IF g \in DOMAIN f THEN f[g] ELSE Absent]
Accepts == Full /\ q.n > 2 /\ def => /\ Regress(ps, 1, Say([m |-> SFrac(q.C, q.A), b |-> SFrac(q.sy * q.A - q.C * q.sx, q.n * q.A), r2 |-> R2(q), p |-> PRof(q, (q.n - 2) * One, 2 * ((q.n - 2) \div 2))])) = <<>> \/ q.n % 2 = 1
                                    /\ Regress(ps, 1, Say([m |-> SFrac(q.C, q.A) + 10])) # <<>>
                                    /\ Correlate(ps, Say([r2 |-> R2(q) + 10])) # <<>>
Emit == Full /\ Emits(SampleOf, <<x, y>>) => PrintT("@G" \o ToJson([x |-> x, y |-> y]))
=============================================================================
