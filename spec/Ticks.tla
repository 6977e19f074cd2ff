-------------------------------- MODULE Ticks --------------------------------
(* Calendar ticks: the instants aligned to a multiple of a unit.  Days restart *)
(* every month, hours every day, minutes every hour, seconds every minute; a   *)
(* tick nearer than half a step to the next restart is left out.               *)
EXTENDS Calendar, FiniteSets
Restart(k, mult, len) == k % mult = 0 /\ (k = 0 \/ 2 * (len - k) >= mult)
SeasonMid(c, y, s) == Serial(c, <<y, <<1, 4, 7, 10>>[s], <<16, 15, 16, 16>>[s], 0, 0, 0>>)
Aligned(c, unit, mult, t) ==
  LET d == DateOf(c, t) IN
  CASE unit = "year" -> d[1] % mult = 0 /\ d[2] = 1 /\ d[3] = 1 /\ t[2] = 0
    [] unit = "month" -> (d[2] - 1) % mult = 0 /\ d[3] = 1 /\ t[2] = 0
    [] unit = "season" -> \E s \in 1..4 : (s - 1) % mult = 0 /\ t = SeasonMid(c, d[1], s)
    [] unit = "monthday" -> Restart(d[3] - 1, mult, MonthLen(c, d[1], d[2])) /\ t[2] = 0
    [] unit = "day" -> d[3] % mult = 0 /\ t[2] = 0
    [] unit = "hour" -> Restart(d[4], mult, 24) /\ d[5] = 0 /\ d[6] = 0
    [] unit = "minute" -> Restart(d[5], mult, 60) /\ d[6] = 0
    [] unit = "second" -> Restart(d[6], mult, 60)
\* the instants at which a tick of the unit can lie, within [a, b)
Candidates(c, unit, a, b) ==
  LET days == a[1]..b[1]
      secs(st) == {<<n, st * k>> : n \in days, k \in 0..((86400 \div st) - 1)}
      y1 == DateOf(c, a)[1] y2 == DateOf(c, b)[1]
      all == CASE unit = "year" -> {Serial(c, <<y, 1, 1, 0, 0, 0>>) : y \in y1..y2}
               [] unit = "month" -> {Serial(c, <<y, m, 1, 0, 0, 0>>) : y \in y1..y2, m \in 1..12}
               [] unit = "season" -> {SeasonMid(c, y, s) : y \in y1..y2, s \in 1..4}
               [] unit \in {"monthday", "day"} -> {<<n, 0>> : n \in days}
               [] unit = "hour" -> secs(3600)
               [] unit = "minute" -> {<<n, 60 * k>> : n \in days, k \in (IF a[1] = b[1] THEN a[2] \div 60 ELSE 0)..(IF a[1] = b[1] THEN b[2] \div 60 ELSE 1439)}
               [] unit = "second" -> LET len == SubI(b, a) IN {AddI(a, <<0, k>>) : k \in 0..(len[1] * 86400 + len[2])}
  IN {t \in all : LeI(a, t) /\ LtI(t, b)}
TickSet(c, unit, mult, a, b) == IF ~LtI(a, b) THEN {} ELSE {t \in Candidates(c, unit, a, b) : Aligned(c, unit, mult, t)}
----------------------------------------------------------------------------
(* the walk: the tick that follows a tick *)
Near(d, d1, mult, unitsec) == LET g == SubI(d1, d) IN 2 * (g[1] * (86400 \div unitsec) + (g[2] \div unitsec)) < mult
Following(c, unit, mult, t) ==
  LET d == DateOf(c, t)
      step(f, g, us) == LET a == Serial(c, f) b == Serial(c, g) IN IF Near(a, b, mult, us) THEN b ELSE a
  IN CASE unit = "year" -> Serial(c, [d EXCEPT ![1] = @ + mult])
       [] unit = "month" -> Serial(c, [d EXCEPT ![2] = @ + mult])
       [] unit = "season" -> LET s == SeasonOf(d[2]) + mult IN SeasonMid(c, d[1] + ((s - 1) \div 4), ((s - 1) % 4) + 1)
       [] unit = "day" -> Serial(c, [d EXCEPT ![3] = @ + mult])
       [] unit = "monthday" -> step([d EXCEPT ![3] = @ + mult], [d EXCEPT ![2] = @ + 1, ![3] = 1], 86400)
       [] unit = "hour" -> step([d EXCEPT ![4] = @ + mult], [d EXCEPT ![3] = @ + 1, ![4] = 0], 3600)
       [] unit = "minute" -> step([d EXCEPT ![5] = @ + mult], [d EXCEPT ![4] = @ + 1, ![5] = 0], 60)
       [] unit = "second" -> step([d EXCEPT ![6] = @ + mult], [d EXCEPT ![5] = @ + 1, ![6] = 0], 1)
Mults(unit) == CASE unit = "year" -> {1, 2, 3, 5, 10} [] unit = "month" -> {1, 2, 3, 4, 6, 12} [] unit = "season" -> {1, 2, 4}
                 [] unit = "monthday" -> {1, 2, 3, 5, 7, 10, 14, 15, 20} [] unit = "day" -> {1, 2, 5, 10, 30}
                 [] unit = "hour" -> {1, 2, 3, 5, 6, 7, 12} [] unit = "minute" -> {1, 7, 15, 30} [] unit = "second" -> {1, 13, 20, 30}
=============================================================================
