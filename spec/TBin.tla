-------------------------------- MODULE TBin --------------------------------
(* Binning of timesteps by date: means, spreads, counts and trends.            *)
(* Data are integers counting half units (NOF = missing), laid out             *)
(* before x time x after; results are rationals <<p, q>> (<<0, 0>> = NaN).     *)
EXTENDS Bins, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
F(b, c) == IF b THEN <<>> ELSE <<c>>
BinBad(e) ==
  LET o == e.obs
      ks == Keys(e.a)
      bins == Bins(e)
      ob == o.ax.d
  IN IF ~Possible(e.kind, e.a.cal, ks) THEN F(o.k = "err", "binned-without-the-date-components")
     ELSE IF o.k = "err" THEN <<"raised-error">>
     ELSE IF o.ax.cal # OutCal(e.kind, e.a.cal) \/ ~Distinct(bins, ob) THEN <<"wrong-bins">>
     ELSE F(Sane(o.ax), "numbers-do-not-denote-the-dates") \o F(o.oth = e.oth, "other-axes-changed")
     \o LET nP == Len(e.rq[1])  nB == Len(e.rq[2])  nS == Len(e.rq[3])
            mem == [b \in 1..Len(ob) |-> Members(e, bins, ob[b])]
            at(i, j, k) == o.dat[((i - 1) * nB + (j - 1)) * nS + k]
        IN IF Len(o.dat) # nP * nB * nS THEN <<"wrong-shape">>
           ELSE F(\A i \in 1..nP, j \in 1..nB, k \in 1..nS : StatOK(e.stat, Vals(e, mem[e.rq[2][j]], e.rq[1][i], e.rq[3][k]), at(i, j, k)), "wrong-" \o e.stat)
\* trends: fit[p, t, s] = 1000 x the value of the fitted line at the date of timestep t (half units)
TrendBad(e) ==
  LET o == e.obs
      bins == Bins(e)
      T == Len(e.a.d)
      day == [t \in 1..T |-> Inst(e.a.cal, e.a.d[t])[1]]
      fit(p, t, s) == o.fit[((p - 1) * T + (t - 1)) * e.S + s]
      okbin(b, p, s) ==
        LET ms == Members(e, bins, b)
            n == Len(ms)
            d == [k \in 1..n |-> day[ms[k]] - day[ms[1]]]
            f == [k \in 1..n |-> fit(p, ms[k], s)]
            r == [k \in 1..n |-> 1000 * X(e, p, ms[k], s) - f[k]]
            j == CHOOSE k \in 1..n : Abs(d[k]) = CHOOSE m \in {Abs(d[i]) : i \in 1..n} : \A i \in 1..n : Abs(d[i]) <= m
        IN IF n < 2 \/ (\A k \in 1..n : d[k] = d[1]) THEN TRUE
           ELSE IF \E k \in 1..n : X(e, p, ms[k], s) = NOF THEN \A k \in 1..n : f[k] = NOF
           ELSE /\ \A k \in 1..n : f[k] # NOF
                \* a straight line ...
                /\ \A k \in 1..n : Abs((f[j] - f[1]) * d[k] - (f[k] - f[1]) * d[j]) <= 4 * (Abs(d[j]) + Abs(d[k]))
                \* ... with residuals that have no mean and no trend
                /\ Abs(SumS(r)) <= 2 * n + 2
                /\ Abs(SumS([k \in 1..n |-> r[k] * d[k]])) <= 2 * SumS([k \in 1..n |-> Abs(d[k])]) + 2
  IN IF ~Possible(e.kind, e.a.cal, Keys(e.a)) \/ T < 2 THEN F(o.k = "err", "trend-not-defined")
     ELSE IF o.k = "err" THEN <<"raised-error">>
     ELSE IF ~Distinct(bins, o.ax.d) THEN <<"wrong-bins">>
     ELSE F(o.oth = e.oth, "other-axes-changed")
          \o F(\A p \in 1..e.P, s \in 1..e.S : \A b \in SetOf(o.ax.d) : okbin(b, p, s), "wrong-trend")
\* subtracting the trend leaves the residuals: dev = data - fit in the same units
DetBad(e) ==
  LET o == e.obs IN
  IF Len(e.a.d) < 2 \/ ~Possible("clim", e.a.cal, Keys(e.a)) THEN F(o.k = "err", "trend-not-defined")
  ELSE IF o.k = "err" THEN <<"raised-error">>
  ELSE IF ~Same(o.ax, e.a) THEN <<"wrong-dates">>
  ELSE TrendBad([e EXCEPT !.obs = [k |-> "ok", ax |-> [d |-> o.bins], oth |-> o.oth,
          fit |-> [i \in 1..Len(o.dev) |-> IF e.dat[i] = NOF \/ o.dev[i] = NOF THEN NOF ELSE 1000 * e.dat[i] - o.dev[i]]]])
----------------------------------------------------------------------------
Bad(e) ==
  IF e.op = "begin" THEN <<>>
  ELSE IF e.obs.k = "hang" THEN <<"does-not-return">>
  ELSE CASE e.op = "bin" -> BinBad(e) [] e.op = "trend" -> TrendBad(e) [] e.op = "detrend" -> DetBad(e)
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET bad == Bad(Trace[l]) IN bad = <<>> \/ PrintT("@@" \o ToJson([line |-> l, clauses |-> bad]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
