------------------------------- MODULE MC_Calc -------------------------------
(* Laws of the calculus operations on every short line over small values.      *)
EXTENDS LCalc, Json, Sample
CONSTANTS N, VMAX, STEPS, KLEN
Min2(a, b) == IF a < b THEN a ELSE b
VARIABLES f, x
Fs(n) == [1..n -> {I(v) : v \in 0..VMAX}]
RECURSIVE Acc(_, _)
Acc(s, j) == IF j = 1 THEN Zero ELSE RAdd(Acc(s, j - 1), I(s[j - 1]))
Xs(n) == {[j \in 1..n |-> Acc(s, j)] : s \in [1..(n - 1) -> STEPS]} \cup {[j \in 1..n |-> RNeg(Acc(s, j))] : s \in [1..(n - 1) -> STEPS]}
VARIABLE chk
Init == chk = FALSE /\ x \in UNION {Xs(n) : n \in 2..N} /\ f = <<>>
Next == ~chk /\ chk' = TRUE /\ f' \in Fs(Len(x)) /\ UNCHANGED x
Ln == Len(f)
Emit == chk /\ Emits(40, [f |-> f, x |-> x]) => PrintT("@G" \o ToJson([f |-> f, x |-> x]))
EmitInit == Emit
Lin == [j \in 1..Ln |-> RAdd(RMul(I(3), x[j]), I(2))]
Quad == [j \in 1..Ln |-> RAdd(RMul(I(2), RMul(x[j], x[j])), Lin[j])]
\* the slope of a line, its zero curvature, and the curvature of a parabola, are exact at every point
ExactSlope == chk => \A j \in 1..Ln : \A df \in {"left", "right", "centre"} : Deriv1(Lin, x, df, j) = I(3)
ExactCurv == chk => (Ln >= 3 => \A j \in 1..Ln : Deriv2(Lin, x, j) = Zero /\ Deriv2(Quad, x, j) = I(4))
\* interior centred difference lies between the one-sided ones
Between == chk => \A j \in 2..(Ln - 1) : LET l == Deriv1(f, x, "left", j) r == Deriv1(f, x, "right", j) c == Deriv1(f, x, "centre", j)
                                  IN RLe(RMin(l, r), c) /\ RLe(c, RMax(l, r))
\* differences undo cumulative sums; rectangle sums undo one-sided derivatives
Cum(o, v0) == [j \in 1..Ln |-> Integ(f, x, "cumsum", o, v0, j)]
Inverse == chk =>
  /\ DiffN(Cum(1, I(5)), 1) = [j \in 1..(Ln - 1) |-> f[j + 1]]
  /\ LET L == [k \in 1..Ln |-> Integ(f, x, "rectl", 1, Zero, k)] IN \A j \in 1..(Ln - 1) : Deriv1(L, x, "right", j) = f[j]
  /\ LET R == [k \in 1..Ln |-> Integ(f, x, "rectr", 1, Zero, k)] IN \A j \in 2..Ln : Deriv1(R, x, "left", j) = f[j]
\* the trapezoid is the average of the rectangles, exact on lines, and both directions add up to the whole
Trapz == chk => \A j \in 1..Ln : /\ Integ(f, x, "trapz", 1, One, j) = RMul(Q(1, 2), RAdd(Integ(f, x, "rectl", 1, One, j), Integ(f, x, "rectr", 1, One, j)))
                          /\ \A ty \in {"trapz", "rectl", "rectr"} : RAdd(Integ(f, x, ty, 1, Zero, j), Integ(f, x, ty, -1, Zero, j)) = Integ(f, x, ty, 1, Zero, Ln)
                          /\ RAdd(Cum(1, Zero)[j], Cum(-1, Zero)[j]) = RAdd(Cum(1, Zero)[Ln], f[j])
\* smoothing: constants are kept, the total is kept by symmetric kernels, the bounds are kept
Kers == {k \in UNION {[1..L -> {I(0), I(1), I(2)}] : L \in 3..Min2(KLEN, Ln)} : RSum(k) # Zero}
Const == (chk /\ f[1] = Zero /\ x = [j \in 1..Ln |-> I(j - 1)]) => \A k \in Kers : \A j \in 1..Ln : Smooth1([q \in 1..Ln |-> I(7)], k, j) = I(7)
Sym(k) == \A q \in 1..Len(k) : k[q] = k[Len(k) + 1 - q]
Kept == (chk /\ x = [j \in 1..Ln |-> I(j - 1)]) => \A k \in Kers : /\ (Sym(k) /\ Len(k) % 2 = 1) => RSum([j \in 1..Ln |-> Smooth1(f, k, j)]) = RSum(f)
                        /\ \A j \in 1..Ln : RLe(MinOf(f), Smooth1(f, k, j)) /\ RLe(Smooth1(f, k, j), MaxOf(f))
=============================================================================
