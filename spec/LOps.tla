-------------------------------- MODULE LOps --------------------------------
(* Operations on labelled arrays, by family.                                  *)
EXTENDS LArr

\* coordinates of an axis as a variable on itself
AxisVar(A, i) == LET x == A.ax[i] IN [ax |-> <<x>>, sh |-> <<Len(x.v)>>, dat |-> [j \in 1..Len(x.v) |-> Q(x.v[j], SC)]]

\* rearrange the axes of a to the order of the observed axes (matched by class and name)
Align(a, oax) ==
  LET n == Len(a.ax)
      Pos(x) == {i \in 1..n : a.ax[i].k = x.k /\ a.ax[i].n = x.n}
  IN IF Len(oax) # n \/ (\E j \in 1..n : Pos(oax[j]) = {}) THEN a
     ELSE LET p == [j \in 1..n |-> CHOOSE i \in Pos(oax[j]) : TRUE]
          IN IF Cardinality(Range(p)) # n THEN a
             ELSE Build([j \in 1..n |-> a.ax[p[j]]],
                        LAMBDA m : At(a, [i \in 1..n |-> m[CHOOSE j \in 1..n : p[j] = i]]))

----------------------------------------------------------------------------
(* reductions: F applied to the values (and weights) sharing each remaining coordinate *)
Ones(n) == [i \in 1..n |-> i]
ReduceW(A, R, W(_), F(_, _)) ==
  LET n == Len(A.ax)
      kp == SelectSeq(Ones(n), LAMBDA i : i \notin R)
      rd == SelectSeq(Ones(n), LAMBDA i : i \in R)
      rsh == [j \in 1..Len(rd) |-> A.sh[rd[j]]]
      rst == TLCEval(Strides(rsh))
      NR == Prod(rsh)
      where == TLCEval([i \in 1..n |-> IF i \in R THEN CHOOSE j \in 1..Len(rd) : rd[j] = i
                                                 ELSE CHOOSE j \in 1..Len(kp) : kp[j] = i])
      full(m, p) == [i \in 1..n |-> IF i \in R THEN ((p - 1) \div rst[where[i]]) % rsh[where[i]] ELSE m[where[i]]]
  IN Build([j \in 1..Len(kp) |-> A.ax[kp[j]]],
           LAMBDA m : F(TLCEval([p \in 1..NR |-> At(A, full(m, p))]), TLCEval([p \in 1..NR |-> W(full(m, p))])))
NoW(mi) == One
\* the default weights of a set of axes: product of the weights associated with each
AxisW(A, R, mi) ==
  LET S == {i \in R : "weights" \in AuxNames(A.ax[i])}
      f[i \in 0..Len(A.ax)] == IF i = 0 THEN One
                               ELSE IF i \in S THEN RMul(f[i - 1], AuxVal(A.ax[i], "weights")[mi[i] + 1]) ELSE f[i - 1]
  IN f[Len(A.ax)]
Times(v, w) == [i \in 1..Len(v) |-> RMul(v[i], w[i])]
WMean(v, w) == RDiv(RSum(Times(v, w)), RSum(w))

----------------------------------------------------------------------------
(* coordinate selection.  A condition is [key, i, l, n, m, s (prefix letters),  *)
(*  sc |-> scalar?, v |-> sequence of optional integers, fl |-> floating axis?]   *)
LowerNames(k) ==
  CASE k = "Lat" -> {"lat"} [] k = "Lon" -> {"lon"} [] k = "Pres" -> {"pres"} [] k = "Hybrid" -> {"hybrid", "eta"}
    [] k = "XAxis" -> {"xaxis"} [] k = "YAxis" -> {"yaxis"} [] k = "ZAxis" -> {"zaxis"} [] k = "TAxis" -> {"taxis"}
    [] k = "Axis" -> {"axis"} [] k = "NamedAxis" -> {"namedaxis"} [] k = "Index" -> {"index"} [] k = "Time" -> {"time"}
    [] k = "StandardTime" -> {"standardtime"} [] k = "ModelTime365" -> {"modeltime365"} [] k = "ModelTime360" -> {"modeltime360"}
    [] k = "CalendarTime" -> {"calendartime"} [] OTHER -> {}
Aliases(a) == {a.n} \cup UNION {LowerNames(k) : k \in Range(Chain(a.k))}
\* the axis a keyword designates: the first that has the key as a name or among its associated arrays
HasKey(a, c) == c.key \in Aliases(a) \/ c.key \in AuxNames(a)
AxisOf(A, c) == IF \E i \in 1..Len(A.ax) : HasKey(A.ax[i], c)
                THEN CHOOSE i \in 1..Len(A.ax) : HasKey(A.ax[i], c) /\ \A j \in 1..(i - 1) : ~HasKey(A.ax[j], c)
                ELSE 0
MaskSet(m) == {i \in 1..Len(m) : m[i]}
Nearest(vals, x) == CHOOSE i \in 1..Len(vals) : /\ \A j \in 1..Len(vals) : RLe(RAbs(RSub(vals[i], x)), RAbs(RSub(vals[j], x)))
                                                /\ \A j \in 1..(i - 1) : RLt(RAbs(RSub(vals[i], x)), RAbs(RSub(vals[j], x)))
CondVals(a, c) == IF c.key \in Aliases(a) THEN [j \in 1..Len(a.v) |-> Q(a.v[j], SC)] ELSE AuxVal(a, c.key)
PickVal(vals, x, fl) == IF fl THEN {Nearest(vals, x)} ELSE {i \in 1..Len(vals) : vals[i] = x}
\* set of (1-based) positions satisfying one condition
CondOk(a, c) ==
  IF c.i THEN /\ c.key \in Aliases(a)
              /\ (c.sc \/ c.l \/ Len(c.v) \notin {2, 3}) => \A j \in 1..Len(c.v) : c.v[j] # <<>> /\ WrapOk(Len(a.v), c.v[j][1])
  ELSE IF c.sc \/ c.l THEN ~(c.fl /\ Len(a.v) = 0 /\ Len(c.v) > 0)
  ELSE Len(c.v) = 2
CondSet(a, c) ==
  LET n == Len(a.v)
      vals == CondVals(a, c)
      x(j) == Q(c.v[j][1], SC)
      S == IF c.i THEN
             IF c.sc \/ c.l \/ Len(c.v) \notin {2, 3} THEN {WrapI(n, c.v[j][1]) + 1 : j \in 1..Len(c.v)}
             ELSE {p + 1 : p \in Range(SliceIx(n, c.v[1], c.v[2], IF Len(c.v) = 3 THEN c.v[3] ELSE <<>>))}
           ELSE IF c.sc \/ c.l THEN UNION {PickVal(vals, x(j), c.fl) : j \in 1..Len(c.v)}
           ELSE {i \in 1..n : RLe(RMin(x(1), x(2)), vals[i]) /\ RLe(vals[i], RMax(x(1), x(2)))}
  IN IF c.n THEN (1..n) \ S ELSE S
SelOk(A, cs) == \A j \in 1..Len(cs) :
                  LET i == AxisOf(A, cs[j])
                  IN i # 0 /\ CondOk(A.ax[i], cs[j])
                           /\ ((cs[j].m \/ cs[j].s) => \E q \in 1..Len(A.ax) : cs[j].key \in Aliases(A.ax[q]))
Means(A, cs)    == {i \in 1..Len(A.ax) : \E j \in 1..Len(cs) : cs[j].m /\ AxisOf(A, cs[j]) = i}
Squeezes(A, cs) == {i \in 1..Len(A.ax) : \E j \in 1..Len(cs) : cs[j].s /\ ~cs[j].m /\ AxisOf(A, cs[j]) = i} \ Means(A, cs)
Sub(A, cs) ==
  TakeAll(A, TLCEval([i \in 1..Len(A.ax) |->
    LET S == {p \in 1..A.sh[i] : \A j \in 1..Len(cs) : AxisOf(A, cs[j]) = i => p \in CondSet(A.ax[i], cs[j])}
    IN SelectSeq([q \in 1..A.sh[i] |-> q - 1], LAMBDA q : (q + 1) \in S)]))
Sel(A, cs) ==
  LET B == TLCEval(Sub(A, cs))
      M == Means(A, cs)
      S == {i \in Squeezes(A, cs) : B.sh[i] = 1}
      D == TLCEval(IF M = {} THEN B ELSE ReduceW(B, M, LAMBDA mi : AxisW(B, M, mi), WMean))
      \* positions of the squeezed axes among those left by the means
      S2 == {i - Cardinality({q \in M : q < i}) : i \in S}
  IN DropAxes(D, S2)
\* averaging over nothing is an error
SelEmptyMean(A, cs) == LET B == Sub(A, cs) IN \E i \in Means(A, cs) : B.sh[i] = 0

Arr(a)  == [k |-> "arr", a |-> a]
Vals(a) == [k |-> "vals", a |-> a]
Err     == [k |-> "err", a |-> <<>>]
Free    == [k |-> "any", a |-> <<>>]
\* a result on exactly these axes, in whatever order the implementation chose
ArrU(a) == [k |-> "arru", a |-> a]

SelExp(e, A) ==
  LET cs == IF e.ignore THEN SelectSeq(e.cs, LAMBDA c : AxisOf(A, c) # 0) ELSE e.cs
  IN IF ~SelOk(A, cs) THEN Err
     ELSE IF SelEmptyMean(A, cs) THEN Err
     ELSE Arr(Sel(A, cs))

=============================================================================
