-------------------------------- MODULE LRed --------------------------------
(* Reductions: F over the values sharing each remaining coordinate.            *)
EXTENDS LRestr

Pairs2(v, w) == [i \in 1..Len(v) |-> <<v[i], w[i]>>]
Present(v, w) == SelectSeq(Pairs2(v, w), LAMBDA p : ~IsNaN(p[1]))
Fst(ps) == [i \in 1..Len(ps) |-> ps[i][1]]
Snd(ps) == [i \in 1..Len(ps) |-> ps[i][2]]
RECURSIVE FoldMin(_, _)
FoldMin(v, i) == IF i = Len(v) THEN v[i] ELSE RMin(v[i], FoldMin(v, i + 1))
MinOf(v) == FoldMin(v, 1)
MaxOf(v) == RNeg(MinOf([i \in 1..Len(v) |-> RNeg(v[i])]))
FirstAt(v, x) == CHOOSE i \in 1..Len(v) : v[i] = x /\ \A j \in 1..(i - 1) : v[j] # x
Square(v) == [i \in 1..Len(v) |-> RMul(v[i], v[i])]
\* sample variance with frequency weights; unweighted when all weights are one
Var2(v, w, weighted) ==
  LET W == RSum(w) S == RSum(Times(v, w))
  IN IF RSub(W, One) = Zero THEN (IF weighted THEN Open ELSE NaN)
     ELSE IF W = Zero THEN NaN
     ELSE RDiv(RSub(RSum(Times(Square(v), w)), RDiv(RMul(S, S), W)), RSub(W, One))
Red(f, v, w, weighted) ==
  LET ps == Present(v, w)
      pv == Fst(ps) pw == Snd(ps)
  IN CASE (\E i \in 1..Len(v) : IsOpen(v[i])) -> Open
       [] f = "sum" -> RSum(Times(v, w))
       [] f = "mean" -> WMean(v, w)
       [] f = "min" -> MinOf(v)
       [] f = "max" -> MaxOf(v)
       [] f \in {"argmin", "argmax"} /\ Len(ps) < Len(v) -> Open
       [] f = "argmin" -> I(FirstAt(v, MinOf(v)) - 1)
       [] f = "argmax" -> I(FirstAt(v, MaxOf(v)) - 1)
       [] f \in {"variance", "stdev"} -> IF Len(ps) < Len(v) THEN NaN ELSE Var2(v, w, weighted)
       [] ps = <<>> -> IF f = "nansum" THEN Open ELSE NaN     \* (the sum of nothing: zero or missing)
       [] f = "nansum" -> RSum(Times(pv, pw))
       [] f = "nanmean" -> WMean(pv, pw)
       [] f = "nanmin" -> MinOf(pv)
       [] f = "nanmax" -> MaxOf(pv)
       [] f \in {"nanvariance", "nanstdev"} -> Var2(pv, pw, weighted)
\* weights given as an array on some of the reduced axes
AxPosIn(A, x) == CHOOSE i \in 1..Len(A.ax) : AxEq(A.ax[i], x)
WOk(A, R, Wa) == \A j \in 1..Len(Wa.ax) : \E i \in R : AxEq(A.ax[i], Wa.ax[j])
WAt(A, Wa, mi) == At(Wa, [j \in 1..Len(Wa.ax) |-> mi[AxPosIn(A, Wa.ax[j])]])
HasW(A, R) == \E i \in R : "weights" \in AuxNames(A.ax[i])
RedArr(e, A, Wa) ==
  LET R == Range(e.R)
  IN CASE e.w = "none" -> ReduceW(A, R, NoW, LAMBDA v, w : Red(e.f, v, w, FALSE))
       [] e.w = "default" -> ReduceW(A, R, LAMBDA mi : AxisW(A, R, mi), LAMBDA v, w : Red(e.f, v, w, HasW(A, R)))
       [] e.w = "var" -> ReduceW(A, R, LAMBDA mi : WAt(A, Wa, mi), LAMBDA v, w : Red(e.f, v, w, TRUE))
RedExp(e, A, Wa) ==
  IF e.w = "var" /\ ~WOk(A, Range(e.R), Wa) THEN Err
  ELSE IF \E i \in Range(e.R) : A.sh[i] = 0 THEN Err
  ELSE IF e.scalar THEN Vals(RedArr(e, A, Wa)) ELSE Arr(RedArr(e, A, Wa))
=============================================================================
