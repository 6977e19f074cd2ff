------------------------------- MODULE MC_Tick -------------------------------
(* Walking from tick to tick meets every aligned instant, in order.            *)
EXTENDS Ticks, TLC
CONSTANTS YEARS, UNITS
VARIABLES cal, unit, mult, t, n
Cals == {"std", "365", "360", "yearless"}
AllUnits == {"year", "month", "season", "monthday", "day", "hour", "minute", "second"}
Fine == {"hour", "minute", "second"}
Y1 == {1999, 2000}
Y2 == {-1, 1899, 1999, 2003}
Starts(c, u, m) == IF c = "yearless" THEN {<<-1, 0>>} ELSE
  IF u \in Fine THEN {Serial(c, <<y, 2, 28, 0, 0, 0>>) : y \in YEARS} ELSE {Serial(c, <<y - (y % m), 1, 1, 0, 0, 0>>) : y \in YEARS}
Init == /\ cal \in Cals /\ unit \in UNITS /\ (cal = "yearless" => unit \in Fine \cup {"day"}) /\ (unit = "day" => cal = "yearless")
        /\ (unit = "season" => cal \in {"std", "365"})
        /\ mult \in Mults(unit) /\ n = 0 /\ t \in (IF unit = "season" THEN {SeasonMid(cal, y, 1) : y \in YEARS} ELSE Starts(cal, unit, mult))
Next == n < 70 /\ n' = n + 1 /\ t' = Following(cal, unit, mult, t) /\ UNCHANGED <<cal, unit, mult>>
Nxt == Following(cal, unit, mult, t)
Onto == Aligned(cal, unit, mult, t)
Forward == LtI(t, Nxt)
NoneMissed == TickSet(cal, unit, mult, t, Nxt) = {t}
=============================================================================
