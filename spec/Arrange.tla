------------------------------ MODULE Arrange -------------------------------
(* Re-arranging time.  Data are integers (NOF = missing); a field is a         *)
(* function of the timestep.                                                   *)
EXTENDS TimeAx
\* ---- lags: what sits at timestep t and offset k
Lagged(x, t, k) == IF t + k \in 1..Len(x) THEN x[t + k] ELSE NOF
LagCoord(a, lags, rev) ==
  LET dt == SubI(Inst(a.cal, a.d[2]), Inst(a.cal, a.d[1]))
  IN [i \in 1..Len(lags) |-> MulI(dt, IF rev THEN -lags[Len(lags) + 1 - i] ELSE lags[i])]
LagOrder(lags, rev) == IF rev THEN [i \in 1..Len(lags) |-> lags[Len(lags) + 1 - i]] ELSE lags
\* ---- years and dates within the year
NoYear(d) == [d EXCEPT ![1] = NOF]
WithYear(y, d) == [d EXCEPT ![1] = y]
RECURSIVE SortInts(_)
SortInts(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortInts(S \ {m})
Years(d) == SortInts({d[i][1] : i \in 1..Len(d)})
WithinYear(d) == [i \in 1..Len(d) |-> NoYear(d[i])]
At(d, x, f) == IF \E i \in 1..Len(d) : d[i] = f THEN x[CHOOSE i \in 1..Len(d) : d[i] = f] ELSE NOF
Split(d, x, ys, days) == [y \in 1..Len(ys) |-> [k \in 1..Len(days) |-> At(d, x, WithYear(ys[y], days[k]))]]
\* joined: every date of every year, years first
JoinDates(ys, days) == [i \in 1..(Len(ys) * Len(days)) |-> WithYear(ys[(i - 1) \div Len(days) + 1], days[((i - 1) % Len(days)) + 1])]
JoinVals(ys, days, m) == [i \in 1..(Len(ys) * Len(days)) |-> m[(i - 1) \div Len(days) + 1][((i - 1) % Len(days)) + 1]]
Real(c, f) == LET g == Fill(f, <<0, 1, 1, 0, 0, 0>>) IN c = "yearless" \/ g[3] <= MonthLen(c, g[1], g[2])
\* ---- days taken out of every year
LeapYear(c, y) == c = "std" /\ y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
Doy(c, d) == DayOfYear(c, Fill(d, D1))
Omits(c, d, lp, nl) == IF LeapYear(c, d[1]) THEN lp ELSE nl
Kept(c, ds, lp, nl) == SelectSeq([i \in 1..Len(ds) |-> i], LAMBDA i : ~ (Doy(c, ds[i]) \in SetOf(Omits(c, ds[i], lp, nl))))
Moved(c, d, lp, nl, c2) ==
  LET f == Fill(d, D1)
      k == Doy(c, d) - 1 - Cardinality({o \in SetOf(Omits(c, d, lp, nl)) : o < Doy(c, d)})
      s == Serial(c2, <<f[1], 1, 1, f[4], f[5], f[6]>>)
  IN DateOf(c2, AddI(s, <<k, 0>>))
=============================================================================
