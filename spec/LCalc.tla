-------------------------------- MODULE LCalc --------------------------------
(* Differences, derivatives, integrals and smoothing along one axis.           *)
EXTENDS LRed

\* values of A along axis i through multi-index m
Along(A, i, m) == [j \in 1..A.sh[i] |-> At(A, [m EXCEPT ![i] = j - 1])]
\* the coordinate along axis i of A that a calculus operation refers to: the axis itself,
\* the values of a one-axis array taken in order, or an array on (some of) the axes of A
Coord1(A, i, m, by, D) ==
  CASE by = "axis" -> [j \in 1..A.sh[i] |-> Q(A.ax[i].v[j], SC)]
    [] by = "order" -> D.dat
    [] by = "array" -> [j \in 1..A.sh[i] |-> WAt(A, D, [m EXCEPT ![i] = j - 1])]

\* ---- on a line: f values, x coordinates
RECURSIVE DiffN(_, _)
DiffN(f, n) == IF n = 0 THEN f ELSE LET d == DiffN(f, n - 1) IN [j \in 1..(Len(d) - 1) |-> RSub(d[j + 1], d[j])]
Slope(f, x, a, b) == RDiv(RSub(f[b], f[a]), RSub(x[b], x[a]))
Deriv1(f, x, df, j) ==
  LET N == Len(f)
      a == IF df = "right" THEN j ELSE j - 1
      b == IF df = "left" THEN j ELSE j + 1
  IN IF a < 1 THEN Slope(f, x, 1, 2) ELSE IF b > N THEN Slope(f, x, N - 1, N) ELSE Slope(f, x, a, b)
\* twice the second divided difference of the three points about j, or of the three at the end
Deriv2(f, x, j) ==
  LET N == Len(f)
      c == IF j = 1 THEN 2 ELSE IF j = N THEN N - 1 ELSE j
  IN RMul(I(2), RDiv(RSub(Slope(f, x, c, c + 1), Slope(f, x, c - 1, c)), RSub(x[c + 1], x[c - 1])))
\* contribution of the interval between points j and j+1
Piece(f, x, ty, j) ==
  LET d == RSub(x[j + 1], x[j])
  IN CASE ty = "trapz" -> RMul(RMul(Q(1, 2), d), RAdd(f[j], f[j + 1]))
       [] ty = "rectl" -> RMul(d, f[j])
       [] ty = "rectr" -> RMul(d, f[j + 1])
Integ(f, x, ty, ord, v0, j) ==
  IF ty = "cumsum" THEN RAdd(v0, RSum([k \in 1..(IF ord > 0 THEN j ELSE Len(f) - j + 1) |-> f[IF ord > 0 THEN k ELSE j + k - 1]]))
  ELSE IF ord > 0 THEN RAdd(v0, RSum([k \in 1..(j - 1) |-> Piece(f, x, ty, k)]))
  ELSE RAdd(v0, RSum([k \in 1..(Len(f) - j) |-> Piece(f, x, ty, j + k - 1)]))
\* the line continued by reflection about its ends
Mirror(N, p) == IF p < 1 THEN 1 - p ELSE IF p > N THEN 2 * N + 1 - p ELSE p
Smooth1(f, ker, j) ==
  LET L == Len(ker)
      W == RSum(ker)
  IN RDiv(RSum([k \in 1..L |-> RMul(ker[k], f[Mirror(Len(f), j + (L - 1) \div 2 - (k - 1))])]), W)

\* ---- on arrays
OnLine(A, i, F(_, _, _)) == Build(A.ax, LAMBDA m : F(TLCEval(Along(A, i, m)), m, m[i] + 1))
Diff(A, i, n) == LET ax2 == AxTake(A.ax[i], [j \in 1..(A.sh[i] - n) |-> j - 1])
                 IN Build([A.ax EXCEPT ![i] = ax2], LAMBDA m : DiffN(TLCEval(Along(A, i, m)), n)[m[i] + 1])
CoordOk(A, i, by, D) ==
  CASE by = "axis" -> TRUE [] by = "order" -> Len(D.ax) = 1 /\ D.sh[1] = A.sh[i]
    [] by = "array" -> (\E j \in 1..Len(D.ax) : AxEq(D.ax[j], A.ax[i])) /\ \A j \in 1..Len(D.ax) : \E q \in 1..Len(A.ax) : AxEq(D.ax[j], A.ax[q])
\* events: i axis (1-based), by, D second source (if by # "axis")
CalcExp(e, A, D) ==
  LET i == e.i N == A.sh[e.i] IN
  CASE e.op = "diff" -> IF N <= e.n THEN Err ELSE Arr(Diff(A, i, e.n))
    [] e.op = "deriv" -> IF N < (IF e.df = "2" THEN 3 ELSE 2) \/ ~CoordOk(A, i, e.by, D) THEN Err
                         ELSE Arr(OnLine(A, i, LAMBDA f, m, j : LET x == TLCEval(Coord1(A, i, m, e.by, D))
                                                               IN IF e.df = "2" THEN Deriv2(f, x, j) ELSE Deriv1(f, x, e.df, j)))
    [] e.op = "smooth" -> IF Len(e.ker) <= 2 THEN Free ELSE IF Len(e.ker) > N THEN Err
                          ELSE Arr(OnLine(A, i, LAMBDA f, m, j : Smooth1(f, e.ker, j)))
\* V: array of starting values (on other axes of A), or the constant c
V0At(A, has, V, c, m) == IF has THEN WAt(A, V, m) ELSE c
V0Ok(A, has, i, V) == has => \A j \in 1..Len(V.ax) : \E q \in 1..Len(A.ax) : q # i /\ AxEq(V.ax[j], A.ax[q])
IntegExp(e, A, D, V) ==
  LET i == e.i has == e.hv # 0 IN
  IF A.sh[i] < 2 \/ ~CoordOk(A, i, e.by, D) \/ ~V0Ok(A, has, i, V) THEN Err
  ELSE Arr(OnLine(A, i, LAMBDA f, m, j : Integ(f, TLCEval(Coord1(A, i, m, e.by, D)), e.ty, e.ord, V0At(A, has, V, e.c, m), j)))
=============================================================================
