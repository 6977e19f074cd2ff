------------------------------ MODULE TArrange ------------------------------
(* Trace specification of re-arranged time: lags, years split off and joined,  *)
(* days taken out.  Data are laid out before x time x after (x between).       *)
EXTENDS Arrange, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
F(b, c) == IF b THEN <<>> ELSE <<c>>
Ser(e, p, s, n) == [t \in 1..n |-> e.dat[((p - 1) * n + (t - 1)) * e.S + s]]
\* recorded values at the requested positions of axes 1..r
At4(o, rq, i, j, k, m) == o.dat[(((i - 1) * Len(rq[2]) + (j - 1)) * Len(rq[3]) + (k - 1)) * Len(rq[4]) + m]
At3(o, rq, i, j, k) == o.dat[((i - 1) * Len(rq[2]) + (j - 1)) * Len(rq[3]) + k]
Size(rq) == IF Len(rq) = 4 THEN Len(rq[1]) * Len(rq[2]) * Len(rq[3]) * Len(rq[4]) ELSE Len(rq[1]) * Len(rq[2]) * Len(rq[3])
LagBad(e) ==
  LET o == e.obs
      n == Len(e.a.d)
      rq == e.rq
      ls == LagOrder(e.lags, e.rev)
  IN IF n < 2 THEN F(o.k = "err", "lag-without-spacing")
     ELSE IF o.k = "err" THEN <<"raised-error">>
     ELSE F(o.ax = e.a, "time-axis-changed") \o F(o.oth = e.oth, "other-axes-changed")
       \o F(o.lag.cls = "Lag" /\ o.lag.back = LagCoord(e.a, e.lags, e.rev) /\ o.lag.unit = e.a.unit, "wrong-lag-axis")
       \o IF Len(o.dat) # Size(rq) THEN <<"wrong-shape">>
          ELSE F(\A i \in 1..Len(rq[1]), m \in 1..Len(rq[4]) :
                   LET x == Ser(e, rq[1][i], rq[4][m], n)
                   IN \A j \in 1..Len(rq[2]), k \in 1..Len(rq[3]) : At4(o, rq, i, j, k, m) = Lagged(x, rq[2][j], ls[rq[3][k]]), "wrong-lagged-values")
SplitBad(e) ==
  LET o == e.obs
      d == e.a.d
      n == Len(d)
      rq == e.rq
  IN IF ~ (1 \in Keys(e.a)) \/ Keys(e.a) = {1} THEN F(o.k = "err" \/ Keys(e.a) = {1}, "split-without-years")
     ELSE IF o.k = "err" THEN <<"raised-error">>
     ELSE IF o.years # Years(d) THEN <<"wrong-years">>
     ELSE IF o.days.cal # e.a.cal \/ ~Distinct(WithinYear(d), o.days.d) THEN <<"wrong-dates-within-the-year">>
     ELSE F(Sane(o.days), "numbers-do-not-denote-the-dates") \o F(o.oth = e.oth, "other-axes-changed")
       \o IF Len(o.dat) # Size(rq) THEN <<"wrong-shape">>
          ELSE F(\A i \in 1..Len(rq[1]), m \in 1..Len(rq[4]) :
                   LET x == Ser(e, rq[1][i], rq[4][m], n)
                   IN \A j \in 1..Len(rq[2]), k \in 1..Len(rq[3]) : At4(o, rq, i, j, k, m) = At(d, x, WithYear(o.years[rq[2][j]], o.days.d[rq[3][k]])), "wrong-split-values")
\* source: before x year x between x day x after, between folded into before/after by the harness:
\* e.src[b][m][s] lists year x day
JoinBad(e) ==
  LET o == e.obs
      rq == e.rq
      nd == Len(e.days.d)
      want == JoinDates(e.years, e.days.d)
      val(f, i, q, m) == LET y == CHOOSE y \in 1..Len(e.years) : e.years[y] = f[1]
                             k == CHOOSE k \in 1..nd : e.days.d[k] = NoYear(f)
                         IN e.dat[((((i - 1) * Len(e.years) + (y - 1)) * e.M + (q - 1)) * nd + (k - 1)) * e.S + m]
  IN IF o.k = "err" THEN <<"raised-error">>
     ELSE IF o.ax.cal # e.days.cal \/ SelectSeq(o.ax.d, LAMBDA f : Real(o.ax.cal, f)) # SelectSeq(want, LAMBDA f : Real(o.ax.cal, f)) THEN <<"wrong-dates">>
     ELSE IF ~ (SetOf(o.ax.d) \subseteq SetOf(want)) THEN <<"wrong-dates">>
     ELSE F(Sane(o.ax), "numbers-do-not-denote-the-dates") \o F(o.oth = e.oth, "other-axes-changed")
       \o IF Len(o.dat) # Size(rq) THEN <<"wrong-shape">>
          ELSE F(\A i \in 1..Len(rq[1]), j \in 1..Len(rq[2]), q \in 1..Len(rq[3]), m \in 1..Len(rq[4]) :
                   At4(o, rq, i, j, q, m) = val(o.ax.d[rq[2][j]], rq[1][i], rq[3][q], rq[4][m]), "wrong-joined-values")
\* split and join: every source value on its date, nothing else
RoundBad(e) ==
  LET o == e.obs
      d == e.a.d
      n == Len(d)
      m == Len(o.ax.d)
  IN IF o.k = "err" THEN <<"raised-error">>
     ELSE IF ~ (SetOf(d) \subseteq SetOf(o.ax.d)) THEN <<"dates-lost">>
     ELSE F(\A p \in 1..e.P, s \in 1..e.S :
         LET x == Ser(e, p, s, n)
         IN \A j \in 1..m : o.dat[((p - 1) * m + (j - 1)) * e.S + s] = At(d, x, o.ax.d[j]), "not-restored")
LeapBad(e) ==
  LET o == e.obs
      d == e.a.d
      n == Len(d)
      rq == e.rq
      kept == Kept(e.a.cal, d, e.lp, e.nl)
  IN IF kept = <<>> THEN <<>>
     ELSE IF o.k = "err" THEN <<"raised-error">>
     ELSE IF o.ax.cal # e.cal2 \/ Len(o.ax.d) # Len(kept) THEN <<"wrong-days-removed">>
     ELSE IF \E j \in 1..Len(kept) : o.ax.d[j] # Moved(e.a.cal, d[kept[j]], e.lp, e.nl, e.cal2) THEN <<"wrong-dates">>
     ELSE F(Sane(o.ax), "numbers-do-not-denote-the-dates") \o F(o.oth = e.oth, "other-axes-changed")
       \o IF Len(o.dat) # Size(rq) THEN <<"wrong-shape">>
          ELSE F(\A i \in 1..Len(rq[1]), m \in 1..Len(rq[3]), j \in 1..Len(rq[2]) :
                   At3(o, rq, i, j, m) = Ser(e, rq[1][i], rq[3][m], n)[kept[rq[2][j]]], "wrong-values")
----------------------------------------------------------------------------
Bad(e) ==
  IF e.op = "begin" THEN <<>>
  ELSE IF e.obs.k = "hang" THEN <<"does-not-return">>
  ELSE CASE e.op = "lag" -> LagBad(e) [] e.op = "split" -> SplitBad(e) [] e.op = "join" -> JoinBad(e)
         [] e.op = "round" -> RoundBad(e) [] e.op = "leap" -> LeapBad(e)
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET bad == Bad(Trace[l]) IN bad = <<>> \/ PrintT("@@" \o ToJson([line |-> l, clauses |-> bad]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
