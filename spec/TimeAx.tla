------------------------------- MODULE TimeAx -------------------------------
(* Time axes.  What an axis denotes is its list of dates d (with the date      *)
(* components keys in use); start date, unit and the numbers are only a way of *)
(* writing it.  Seasonal calendars ("S-std", "S-365") write <<year, season>>   *)
(* in the first two components and stand for the middle of the season.         *)
EXTENDS Calendar, FiniteSets
NOF == -99999
Fill(f, dflt) == [i \in 1..6 |-> IF f[i] = NOF THEN dflt[i] ELSE f[i]]
D0 == <<0, 1, 1, 0, 0, 0>>     \* what a missing component counts as
D1 == <<1, 1, 1, 0, 0, 0>>     \* start dates of axes
Has(f) == {i \in 1..6 : f[i] # NOF}
SetOf(s) == {s[i] : i \in 1..Len(s)}
Only(d, ks) == [i \in 1..6 |-> IF i \in ks THEN d[i] ELSE NOF]
IsS(c) == c \in {"S-std", "S-365"}
BaseCal(c) == CASE c = "S-std" -> "std" [] c = "S-365" -> "365" [] OTHER -> c
SeasonMid(c, y, s) == Serial(c, <<y, <<1, 4, 7, 10>>[s], <<16, 15, 16, 16>>[s], 0, 0, 0>>)
\* the instant a (possibly incomplete) date stands for
Inst(c, f) == IF IsS(c) /\ f[2] # NOF THEN SeasonMid(BaseCal(c), IF f[1] = NOF THEN 0 ELSE f[1], f[2]) ELSE Serial(BaseCal(c), Fill(f, D0))
Start(c, f) == Serial(BaseCal(c), Fill(f, D0))
Written(c, d, st) == [i \in 1..Len(d) |-> SubI(Inst(c, d[i]), Start(c, st))]
\* an axis record a: cal, keys (sequence of components), d, start, unit, back (its numbers, as instants)
Sane(a) == a.back = Written(a.cal, a.d, a.start)
Keys(a) == SetOf(a.keys)
Same(a, b) == a.cal = b.cal /\ Keys(a) = Keys(b) /\ a.d = b.d
On(f, g, ks) == \A k \in ks : f[k] = g[k]
\* matching the points of b on those of a, by the components a uses
Mappable(a, b) == a.cal = b.cal /\ Keys(a) \subseteq Keys(b)
Hits(a, f) == {i \in 1..Len(a.d) : On(a.d[i], f, Keys(a))}
MapOK(a, b, ix) ==
  LET found == SelectSeq([j \in 1..Len(b.d) |-> j], LAMBDA j : Hits(a, b.d[j]) # {})
  IN Len(ix) = Len(found) /\ \A k \in 1..Len(ix) : ix[k] \in Hits(a, b.d[found[k]])
Covers(a, b) == \A j \in 1..Len(b.d) : Hits(a, b.d[j]) # {}
\* pairs of points agreeing in all the components both axes use
CommonPairs(a, b) == LET ks == Keys(a) \cap Keys(b) IN {<<i, j>> \in (1..Len(a.d)) \X (1..Len(b.d)) : On(a.d[i], b.d[j], ks)}
Dup(a, ks) == \E i, j \in 1..Len(a.d) : i # j /\ On(a.d[i], a.d[j], ks)
Lex6(f, g) == \E k \in 1..6 : f[k] < g[k] /\ \A j \in 1..(k - 1) : f[j] = g[j]
Distinct(d, e) ==   \* e = the distinct dates of d in order
  SetOf(e) = SetOf(d) /\ \A i \in 1..(Len(e) - 1) : Lex6(e[i], e[i + 1])
MulI(p, k) == Carry(p[1] * k, p[2] * k)       \* for small k
RECURSIVE Steps(_, _, _, _, _)
\* 0, step, 2 step, ... as long as they lie before the total (or at it, if the end is included)
Steps(k, step, total, inc, down) ==
  LET p == MulI(step, k) IN
  IF (IF down THEN LtI(total, p) ELSE LtI(p, total)) \/ (inc /\ p = total) THEN <<p>> \o Steps(k + 1, step, total, inc, down) ELSE <<>>
=============================================================================
