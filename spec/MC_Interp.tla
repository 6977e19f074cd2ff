------------------------------- MODULE MC_Interp -------------------------------
(* Laws of interpolation on every short line, with missing points.             *)
EXTENDS LInterp, Json, Sample
CONSTANTS N, VMAX
VARIABLES x, y, chk
Steps == {1, 2}
RECURSIVE Acc(_, _)
Acc(s, j) == IF j = 1 THEN Zero ELSE RAdd(Acc(s, j - 1), I(s[j - 1]))
Init == chk = FALSE /\ y = <<>> /\ x \in UNION {{[j \in 1..n |-> Acc(s, j)] : s \in [1..(n - 1) -> Steps]} : n \in 2..N}
Next == ~chk /\ chk' = TRUE /\ y' \in [1..Len(x) -> {I(v) : v \in 0..VMAX} \cup {NaN}] /\ UNCHANGED x
Emit == (chk /\ Emits(8, [x |-> x, y |-> y])) => PrintT("@G" \o ToJson([x |-> x, y |-> y]))
Ps == SourcePts(x, y, FALSE)
Tys == {"linear", "polynomial", "cspline", "akima"}
Ok(ty) == Len(Ps) >= MinPts(ty)
X(p) == Q(p, 2)
Pts == {X(p) : p \in -1..(2 * N + 3)}
\* direction does not matter
Direction == chk => SourcePts(Backwards(x), Backwards(y), FALSE) = Ps
\* source points are reproduced by every type
AtSource == chk => \A ty \in Tys : Ok(ty) => \A j \in 1..Len(x) : (IsFin(y[j])) => Interp1(Ps, x[j], ty, NaN, NaN) = y[j]
\* every type is exact on lines; outside the range missing, or the line continued
LinPs == [j \in 1..Len(Ps) |-> <<Ps[j][1], RAdd(RMul(I(3), Ps[j][1]), One)>>]
Lines == chk => \A ty \in Tys : Ok(ty) => \A q \in Pts :
            LET v == Interp1(LinPs, q, ty, I(3), I(3)) IN v = RAdd(RMul(I(3), q), One)
            /\ ((RLt(q, Ps[1][1]) \/ RLt(Ps[Len(Ps)][1], q)) => IsNaN(Interp1(LinPs, q, ty, NaN, NaN)))
\* formulas agree with their own definition: the polynomial and the spline pass through the points and the spline is smooth
Pass == chk => /\ (Ok("polynomial") => \A j \in 1..Len(Ps) : Newton(Ps, Ps[j][1], 1) = Ps[j][2])
               /\ (Ok("cspline") => \A j \in 1..Len(Ps) : Spline(Ps, Ps[j][1]) = Ps[j][2])
\* three points: spline symmetric under reversal of the coordinate
Mirrored == [j \in 1..Len(Ps) |-> <<RNeg(Ps[Len(Ps) + 1 - j][1]), Ps[Len(Ps) + 1 - j][2]>>]
Symmetric == chk => \A ty \in {"linear", "polynomial", "cspline"} : Ok(ty) => \A q \in Pts : Interp1(Ps, q, ty, NaN, NaN) = Interp1(Mirrored, RNeg(q), ty, NaN, NaN)
\* linear: between the neighbouring values
Bounded == chk => (Ok("linear") => \A q \in Pts : (RLe(Ps[1][1], q) /\ RLe(q, Ps[Len(Ps)][1])) =>
              LET j == Cell(Ps, q) v == Interp1(Ps, q, "linear", NaN, NaN) IN RLe(RMin(Ps[j][2], Ps[j + 1][2]), v) /\ RLe(v, RMax(Ps[j][2], Ps[j + 1][2])))
=============================================================================
