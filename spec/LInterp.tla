-------------------------------- MODULE LInterp --------------------------------
(* Interpolation along one axis, from and to coordinates that may vary along   *)
(* the other axes, with missing source points skipped.                         *)
EXTENDS LCalc

\* points are <<x, y>>; the valid ones, in the order in which x increases
Valid(x, y) == SelectSeq(Pairs2(x, y), LAMBDA p : IsFin(p[1]) /\ IsFin(p[2]))
Backwards(ps) == [j \in 1..Len(ps) |-> ps[Len(ps) + 1 - j]]
RECURSIVE KeepUp(_, _)
KeepUp(ps, acc) == IF ps = <<>> THEN acc
                   ELSE IF acc # <<>> /\ RLt(Head(ps)[1], acc[Len(acc)][1]) THEN KeepUp(Tail(ps), acc)
                   ELSE KeepUp(Tail(ps), Append(acc, Head(ps)))
SourcePts(x, y, omit) ==
  LET v == Valid(x, y)
      o == IF Len(v) >= 2 /\ RLt(v[2][1], v[1][1]) THEN Backwards(v) ELSE v
  IN IF omit THEN KeepUp(o, <<>>) ELSE o
MinPts(ty) == CASE ty = "linear" -> 2 [] ty = "polynomial" -> 3 [] ty = "cspline" -> 3 [] ty = "cspline_periodic" -> 2 [] ty \in {"akima", "akima_periodic"} -> 5
Increasing(ps) == \A j \in 1..(Len(ps) - 1) : RLt(ps[j][1], ps[j + 1][1])
Sl(ps, j) == RDiv(RSub(ps[j + 1][2], ps[j][2]), RSub(ps[j + 1][1], ps[j][1]))
OnALine(ps) == \A j \in 2..(Len(ps) - 1) : Sl(ps, j) = Sl(ps, 1)
\* the interval containing x
Cell(ps, x) == CHOOSE j \in 1..(Len(ps) - 1) : RLe(ps[j][1], x) /\ (RLt(x, ps[j + 1][1]) \/ j = Len(ps) - 1)
Linear(ps, x) == LET j == Cell(ps, x) IN RAdd(ps[j][2], RMul(Sl(ps, j), RSub(x, ps[j][1])))
\* Newton's divided differences
RECURSIVE DD(_, _, _)
DD(ps, i, j) == IF i = j THEN ps[i][2] ELSE RDiv(RSub(DD(ps, i + 1, j), DD(ps, i, j - 1)), RSub(ps[j][1], ps[i][1]))
RECURSIVE Newton(_, _, _)
Newton(ps, x, k) == IF k = Len(ps) THEN DD(ps, 1, k) ELSE RAdd(DD(ps, 1, k), RMul(RSub(x, ps[k][1]), Newton(ps, x, k + 1)))
\* natural cubic spline: its second derivatives at the points
Hs(ps, j) == RSub(ps[j + 1][1], ps[j][1])
RECURSIVE Sweep(_, _)   \* forward elimination at interior point i: <<c', d'>>
Sweep(ps, i) ==
  LET b == RMul(I(2), RAdd(Hs(ps, i - 1), Hs(ps, i)))
      r == RMul(I(6), RSub(Sl(ps, i), Sl(ps, i - 1)))
  IN IF i = 2 THEN <<RDiv(Hs(ps, 2), b), RDiv(r, b)>>
     ELSE LET q == Sweep(ps, i - 1)
              d == RSub(b, RMul(Hs(ps, i - 1), q[1]))
          IN <<RDiv(Hs(ps, i), d), RDiv(RSub(r, RMul(Hs(ps, i - 1), q[2])), d)>>
RECURSIVE Curv(_, _)
Curv(ps, i) == IF i = 1 \/ i = Len(ps) THEN Zero ELSE LET q == Sweep(ps, i) IN RSub(q[2], RMul(q[1], Curv(ps, i + 1)))
Spline(ps, x) ==
  LET j == Cell(ps, x) h == Hs(ps, j) t == RSub(x, ps[j][1]) m0 == Curv(ps, j) m1 == Curv(ps, j + 1)
      b == RSub(Sl(ps, j), RDiv(RMul(h, RAdd(RMul(I(2), m0), m1)), I(6)))
  IN RAdd(ps[j][2], RMul(t, RAdd(b, RMul(t, RAdd(RDiv(m0, I(2)), RMul(t, RDiv(RSub(m1, m0), RMul(I(6), h))))))))
Periodic(ty) == ty \in {"cspline_periodic", "akima_periodic"}
AtPt(ps, x) == {j \in 1..Len(ps) : ps[j][1] = x}
\* the interpolated value; lo and hi are the slopes beyond the ends (missing: no extrapolation)
Interp1(ps, x, ty, lo, hi) ==
  LET n == Len(ps) IN
  IF n < MinPts(ty) \/ IsNaN(x) THEN NaN
  ELSE IF Periodic(ty) /\ ps[1][2] # ps[n][2] THEN Open            \* not periodic data
  ELSE IF RLt(x, ps[1][1]) THEN RAdd(ps[1][2], RMul(lo, RSub(x, ps[1][1])))
  ELSE IF RLt(ps[n][1], x) THEN RAdd(ps[n][2], RMul(hi, RSub(x, ps[n][1])))
  ELSE IF AtPt(ps, x) # {} THEN ps[CHOOSE j \in AtPt(ps, x) : TRUE][2]
  ELSE IF ~Periodic(ty) /\ OnALine(ps) THEN Linear(ps, x)
  ELSE CASE ty = "linear" -> Linear(ps, x)
         [] ty = "polynomial" -> IF n <= 6 THEN Newton(ps, x, 1) ELSE Open
         [] ty = "cspline" -> Spline(ps, x)
         [] OTHER -> Open
\* events: i axis (1-based); hx, ho handles of coordinate arrays (0: the axes); oax the new axis
CoordAt(A, i, m, h, H) == IF h = 0 THEN [j \in 1..A.sh[i] |-> Q(A.ax[i].v[j], SC)] ELSE [j \in 1..A.sh[i] |-> WAt(A, H, [m EXCEPT ![i] = j - 1])]
InterpExp(e, A, X, O) ==
  LET i == e.i
      axs == [A.ax EXCEPT ![i] = e.oax]
      B == [ax |-> axs, sh |-> Sh(axs), dat |-> <<>>]
      Line(m) == SourcePts(TLCEval(CoordAt(A, i, m, e.hx, X)), TLCEval(Along(A, i, m)), e.omit)
      oth == [A.ax EXCEPT ![i] = AxTake(A.ax[i], <<0>>)]
      L == Build(oth, LAMBDA m : TLCEval(Line(m)))
      inOk == e.hx = 0 \/ ((\E q \in 1..Len(X.ax) : AxEq(X.ax[q], A.ax[i])) /\ \A q \in 1..Len(X.ax) : \E r \in 1..Len(A.ax) : AxEq(X.ax[q], A.ax[r]))
      outOk == e.ho = 0 \/ ((\E q \in 1..Len(O.ax) : AxEq(O.ax[q], e.oax)) /\ \A q \in 1..Len(O.ax) : \E r \in 1..Len(axs) : AxEq(O.ax[q], axs[r]))
  IN IF A.sh[i] = 0 THEN Free
     ELSE IF ~inOk \/ ~outOk THEN Err
     \* (two points do not make a periodic spline; nothing is asked of the source for an empty result)
     ELSE IF e.ty = "cspline_periodic" /\ \E p \in 1..Len(L.dat) : Len(L.dat[p]) = 2 THEN Free
     ELSE IF Prod(B.sh) = 0 THEN (IF e.hx = 0 THEN ArrU(B) ELSE Free)
     ELSE IF \E p \in 1..Len(L.dat) : Len(L.dat[p]) >= MinPts(e.ty) /\ ~Increasing(L.dat[p]) THEN Err
     ELSE ArrU(Build(axs, LAMBDA m :
            Interp1(At(L, [m EXCEPT ![i] = 0]), IF e.ho = 0 THEN Q(e.oax.v[m[i] + 1], SC) ELSE WAt(B, O, m), e.ty, e.lo, e.hi)))
=============================================================================
