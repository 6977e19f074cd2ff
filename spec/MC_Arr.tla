------------------------------- MODULE MC_Arr -------------------------------
(* A series re-arranged: split into years, read in any pieces of the year-by-  *)
(* day table, joined again; lagged forth and back; days taken out of it.       *)
EXTENDS Arrange, Json, TLC, Sample
CONSTANTS CALS, N, NP, OMITS
VARIABLES cal, d, tab, todo
vars == <<cal, d, tab, todo>>
PoolS == <<<<2000, 2, 28, 0, 0, 0>>, <<2000, 3, 1, 0, 0, 0>>, <<2001, 2, 28, 0, 0, 0>>, <<2001, 3, 1, 0, 0, 0>>, <<1999, 12, 31, 12, 0, 0>>, <<2000, 1, 1, 0, 0, 0>>, <<2000, 12, 31, 12, 0, 0>>, <<2001, 2, 28, 12, 0, 0>>, <<1900, 3, 1, 0, 0, 0>>>>
Pool(c) == {IF c = "360" /\ PoolS[i][3] = 31 THEN [PoolS[i] EXCEPT ![3] = 30] ELSE PoolS[i] : i \in 1..NP} \cup (IF c = "std" THEN {<<2000, 2, 29, 0, 0, 0>>} ELSE IF c = "360" THEN {<<2000, 2, 30, 0, 0, 0>>} ELSE {})
Inj(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
X == [i \in 1..N |-> i]
Ys == Years(d)
RECURSIVE SortD(_)
SortD(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ Lex6(x, y) IN <<m>> \o SortD(S \ {m})
Days == SortD({NoYear(d[i]) : i \in 1..N})
Init == /\ cal \in CALS /\ d \in {s \in [1..N -> Pool(cal)] : Inj(s)}
        /\ tab = <<>> /\ todo = {}
\* the table is filled piece by piece: a set of years and a set of days at a time
Start0 == tab = <<>> /\ tab' = [y \in 1..Len(Ys) |-> [k \in 1..Len(Days) |-> NOF]] /\ todo' = {<<y, k>> : y \in 1..Len(Ys), k \in 1..Len(Days)}
Piece == \E P \in {{<<y, k>> : y \in Y, k \in 1..Len(Days)} : Y \in SUBSET (1..Len(Ys))} \cup {{<<y, k>> : y \in 1..Len(Ys), k \in K} : K \in SUBSET (1..Len(Days))} :
           /\ P \cap todo # {} /\ todo' = todo \ P
           /\ tab' = [y \in 1..Len(Ys) |-> [k \in 1..Len(Days) |-> IF <<y, k>> \in P THEN At(d, X, WithYear(Ys[y], Days[k])) ELSE tab[y][k]]]
Next == (Start0 \/ (tab # <<>> /\ Piece)) /\ UNCHANGED <<cal, d>>
Done == tab # <<>> /\ todo = {}
\* the table holds every timestep once, and joining it restores the series and nothing else
JD == JoinDates(Ys, Days)
JV == JoinVals(Ys, Days, tab)
Restores == Done =>
  /\ tab = Split(d, X, Ys, Days)
  /\ \A i \in 1..N : At(JD, JV, d[i]) = i
  /\ Cardinality({k \in 1..Len(JV) : JV[k] # NOF}) = N
  /\ Inj(JD) /\ \A k \in 1..Len(JD) : JV[k] # NOF => Real(cal, JD[k]) /\ d[JV[k]] = JD[k]
  /\ \A k \in 1..(Len(JD) - 1) : Lex6(JD[k], JD[k + 1])
\* lags undo each other where the series reaches, and compose
Lags == \A k \in -N..N, t \in 1..N :
  LET y == [s \in 1..N |-> Lagged(X, s, k)] IN
  /\ (t - k \in 1..N => Lagged(y, t, -k) = X[t])
  /\ Lagged(X, t, 0) = X[t]
  /\ \A m \in -N..N : t + m \in 1..N => Lagged(y, t, m) = Lagged(X, t, k + m)
  /\ Cardinality({s \in 1..N : y[s] # NOF}) = IF k < 0 THEN N + k ELSE N - k
\* taking leap days out: what is left keeps its order, its year and its time of day, no two meet
LeapCal == IF cal = "std" THEN "365" ELSE cal
Removal == cal = "std" => \A o \in OMITS :
  LET kept == Kept(cal, d, <<o>>, <<>>)
      m == [j \in 1..Len(kept) |-> Moved(cal, d[kept[j]], <<o>>, <<>>, LeapCal)]
  IN /\ Inj(m)
     /\ \A i, j \in 1..Len(kept) : Lex6(d[kept[i]], d[kept[j]]) <=> Lex6(m[i], m[j])
     /\ \A j \in 1..Len(kept) : m[j][1] = d[kept[j]][1] /\ m[j][4] = d[kept[j]][4] /\ Real(LeapCal, m[j])
     /\ o = 60 => \A j \in 1..Len(kept) : m[j] = d[kept[j]] /\ \A i \in 1..N : d[i] = <<2000, 2, 29, 0, 0, 0>> <=> ~ (i \in SetOf(kept))
Emit == Done /\ Emits(8, <<cal, d>>) => PrintT("@G" \o ToJson([cal |-> cal, d |-> d]))
=============================================================================
