-------------------------------- MODULE Bins --------------------------------
(* Which bin a date belongs to, and the statistics of a bin.                   *)
EXTENDS TimeAx
RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumS(Tail(s))
Abs(x) == IF x < 0 THEN -x ELSE x
\* the bin a date belongs to
OutKeys(kind, ks) == CASE kind = "clim" -> ks \ {1} [] kind = "diurnal" -> ks \ {1, 2, 3} [] kind = "daily" -> ks \cap 1..3
                       [] kind = "monthly" -> ks \cap 1..2 [] kind = "yearly" -> ks \cap {1} [] kind = "seasonal" -> (ks \cap {1}) \cup {2}
NeedKey(kind) == CASE kind = "daily" -> {3} [] kind = "monthly" -> {2} [] kind = "yearly" -> {1} [] kind = "seasonal" -> {2} [] OTHER -> {}
BinOf(kind, cal, ks, d) ==
  IF kind = "seasonal" THEN <<IF 1 \in ks THEN SeasonYear(d) ELSE NOF, SeasonOf(d[2]), NOF, NOF, NOF, NOF>>
  ELSE Only(d, OutKeys(kind, ks))
OutCal(kind, cal) == IF kind = "seasonal" THEN "S-" \o cal ELSE cal
Possible(kind, cal, ks) == NeedKey(kind) \subseteq ks /\ OutKeys(kind, ks) # {} /\ (kind = "seasonal" => cal \in {"std", "365"})
Bins(e) == [i \in 1..Len(e.a.d) |-> BinOf(e.kind, e.a.cal, Keys(e.a), e.a.d[i])]
\* values of one bin at one place of the other axes
X(e, p, t, s) == e.dat[((p - 1) * Len(e.a.d) + (t - 1)) * e.S + s]
Members(e, bins, b) == SelectSeq([t \in 1..Len(bins) |-> t], LAMBDA t : bins[t] = b)
Vals(e, ms, p, s) == [k \in 1..Len(ms) |-> X(e, p, ms[k], s)]
Good(v) == SelectSeq(v, LAMBDA x : x # NOF)
IsNaN(r) == r = <<0, 0>>
EqQ(r, num, den) == r[2] > 0 /\ r[1] * den = num * r[2]
\* is r the statistic of the values v?
StatOK(stat, v, r) ==
  LET nan == stat \in {"nanmean", "nanstdev", "count"}
      g == Good(v)
      miss == Len(g) < Len(v) /\ ~nan
      n == Len(g)
      sx == SumS(g)  sxx == SumS([i \in 1..n |-> g[i] * g[i]])
  IN CASE stat = "count" -> EqQ(r, n, 1)
       [] stat \in {"mean", "nanmean"} -> IF miss \/ n = 0 THEN IsNaN(r) ELSE EqQ(r, sx, 2 * n)
       [] stat \in {"stdev", "nanstdev"} -> \* r is the square
            IF miss \/ n = 0 THEN IsNaN(r) ELSE IF n = 1 THEN TRUE ELSE EqQ(r, n * sxx - sx * sx, 4 * n * (n - 1))
=============================================================================
