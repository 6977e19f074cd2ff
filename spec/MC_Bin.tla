------------------------------- MODULE MC_Bin -------------------------------
(* A binned statistic reads a series piece by piece - any pieces, in the order *)
(* of time - and adds each timestep to its bin.  However the series is cut,    *)
(* the bins end up holding what a single pass would give, each timestep        *)
(* counted once in one bin; bins with a year are stretches of time.            *)
EXTENDS Bins, Json, TLC, Sample
CONSTANTS CALS, N, XS, NP
VARIABLES cal, kind, d, x, at, acc
vars == <<cal, kind, d, x, at, acc>>
Kinds == {"clim", "diurnal", "daily", "monthly", "yearly", "seasonal"}
All6 == {1, 2, 3, 4, 5, 6}
PoolS == <<<<1999, 12, 1, 0, 0, 0>>, <<2000, 1, 31, 12, 0, 0>>, <<2000, 2, 28, 0, 0, 0>>, <<2000, 2, 28, 12, 0, 0>>, <<2000, 3, 1, 0, 0, 0>>, <<2000, 12, 1, 0, 0, 0>>,
  <<2001, 1, 31, 12, 0, 0>>, <<1999, 11, 30, 12, 0, 0>>, <<2000, 5, 31, 0, 0, 0>>, <<2000, 6, 1, 0, 30, 0>>, <<2000, 8, 31, 0, 0, 0>>, <<1999, 9, 1, 0, 30, 0>>, <<2001, 2, 28, 0, 0, 0>>>>
Pool(c) == {IF c = "360" /\ PoolS[i][3] = 31 THEN [PoolS[i] EXCEPT ![3] = 30] ELSE PoolS[i] : i \in 1..NP} \cup (IF c = "std" THEN {<<2000, 2, 29, 0, 0, 0>>} ELSE IF c = "360" THEN {<<2000, 2, 30, 0, 0, 0>>} ELSE {})
Init == /\ cal \in CALS /\ kind \in {k \in Kinds : Possible(k, cal, All6)}
        /\ d \in [1..N -> Pool(cal)] /\ x \in {[i \in 1..N |-> v] : v \in XS} \cup {[i \in 1..N |-> IF i = 2 THEN NOF ELSE i]}
        /\ at = 0 /\ acc = <<>>
B(i) == BinOf(kind, cal, All6, d[i])
\* acc is a sequence of [bin, n (values), all (timesteps), s, ss], in the order met
RECURSIVE AddTo(_, _, _)
AddTo(a, b, v) ==
  LET h == IF v = NOF THEN [bin |-> b, n |-> 0, all |-> 1, s |-> 0, ss |-> 0] ELSE [bin |-> b, n |-> 1, all |-> 1, s |-> v, ss |-> v * v]
  IN IF a = <<>> THEN <<h>>
     ELSE IF Head(a).bin = b THEN <<[bin |-> b, n |-> Head(a).n + h.n, all |-> Head(a).all + 1, s |-> Head(a).s + h.s, ss |-> Head(a).ss + h.ss]>> \o Tail(a)
     ELSE <<Head(a)>> \o AddTo(Tail(a), b, v)
RECURSIVE Read(_, _, _)
Read(a, i, j) == IF i > j THEN a ELSE Read(AddTo(a, B(i), x[i]), i + 1, j)
Next == \E j \in (at + 1)..N : at' = j /\ acc' = Read(acc, at + 1, j) /\ UNCHANGED <<cal, kind, d, x>>
BinsSoFar == [i \in 1..at |-> B(i)]
MembersNow(b) == SelectSeq([t \in 1..at |-> t], LAMBDA t : BinsSoFar[t] = b)
Once == SumS([k \in 1..Len(acc) |-> acc[k].all]) = at /\ \A k, m \in 1..Len(acc) : acc[k].bin = acc[m].bin => k = m
Pieces == \A k \in 1..Len(acc) :
  LET v == [i \in 1..Len(MembersNow(acc[k].bin)) |-> x[MembersNow(acc[k].bin)[i]]]
      a == acc[k]  n == a.n
      miss == n < a.all
  IN /\ Len(v) = a.all
     /\ StatOK("count", v, <<n, 1>>)
     /\ StatOK("mean", v, IF miss \/ n = 0 THEN <<0, 0>> ELSE <<a.s, 2 * n>>)
     /\ StatOK("nanmean", v, IF n = 0 THEN <<0, 0>> ELSE <<a.s, 2 * n>>)
     /\ n > 1 => StatOK("nanstdev", v, <<n * a.ss - a.s * a.s, 4 * n * (n - 1)>>)
     /\ (n > 1 /\ \A i \in 1..Len(v) : v[i] = v[1]) => StatOK("stdev", v, <<0, 1>>)
     /\ \A q \in {-1, 0, 1} : n > 0 /\ q # 0 => ~StatOK("nanmean", v, <<a.s + q, 2 * n>>)
\* bins that carry the year are stretches of time, in order
Stretch == kind \in {"daily", "monthly", "yearly", "seasonal"} =>
  \A f, g, h \in 1..N : Lex6(d[f], d[g]) /\ Lex6(d[g], d[h]) => (B(f) = B(h) => B(g) = B(f)) /\ ~Lex6(B(g), B(f))
\* and each is a union of smaller ones
Finer == \A f, g \in 1..N :
  LET same(k) == BinOf(k, cal, All6, d[f]) = BinOf(k, cal, All6, d[g])
  IN /\ same("daily") => same("monthly") /\ (cal # "360" => same("seasonal"))
     /\ same("monthly") => same("yearly") /\ (cal # "360" => same("seasonal"))
     /\ (same("clim") /\ same("yearly")) => d[f] = d[g]
     /\ same("clim") => same("diurnal")
\* the point that stands for a season lies in it; seasons are three whole months
MidInside == kind = "seasonal" => \A i \in 1..N :
  /\ BinOf(kind, cal, All6, DateOf(cal, SeasonMid(cal, B(i)[1], B(i)[2]))) = B(i)
  /\ \A j \in 1..N : B(i) = B(j) => LET m(f) == f[1] * 12 + f[2] IN Abs(m(d[i]) - m(d[j])) <= 2
Emit == at = N /\ Len(acc) > 1 /\ Emits(400, [cal |-> cal, d |-> d]) => PrintT("@G" \o ToJson([cal |-> cal, d |-> d]))
=============================================================================
