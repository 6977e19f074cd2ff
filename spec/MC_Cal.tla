------------------------------- MODULE MC_Cal -------------------------------
(* Every day of the chosen spans: dates and day numbers correspond one to one, *)
(* in order, and each day is followed by the next one.                         *)
EXTENDS Calendar, Json, TLC, Sample
CONSTANTS SPANS       \* set of <<first year, last year>>
VARIABLES cal, d
Cals == {"std", "365", "360", "yearless"}
Quick == {<<-1, 5>>, <<99, 101>>, <<1599, 1601>>, <<1895, 1905>>, <<1996, 2005>>, <<2099, 2101>>}
Deep == {<<-401, 5>>, <<1500, 2500>>, <<9990, 9999>>}
Init == cal \in Cals /\ d \in (IF cal = "yearless" THEN {<<0, 1, -3, 0, 0, 0>>} ELSE UNION {{<<y, 1, 1, 0, 0, 0>> : y \in x[1]..x[2]} : x \in SPANS})
Last == IF cal = "yearless" THEN d[3] > 60 ELSE d[2] = 12 /\ d[3] = MonthLen(cal, d[1], d[2])
Next == ~Last /\ d' = Tomorrow(cal, d) /\ UNCHANGED cal
N == Serial(cal, d)
RoundTrip == DateOf(cal, N) = d /\ N[2] = 0 /\ DateOf(cal, <<N[1], 86399>>) = [d EXCEPT ![4] = 23, ![5] = 59, ![6] = 59]
NextDay == Serial(cal, Tomorrow(cal, d)) = <<N[1] + 1, 0>> /\ DateOf(cal, <<N[1] + 1, 0>>) = Tomorrow(cal, d)
Order == Lex(d, Tomorrow(cal, d)) /\ Valid(cal, d)
Doy == cal = "yearless" \/ (/\ DayOfYear(cal, d) = N[1] - YearStart(cal, d[1]) + 1 /\ DayOfYear(cal, d) <= YearLen(cal, d[1])
                            /\ YearStart(cal, d[1] + 1) = YearStart(cal, d[1]) + YearLen(cal, d[1]))
\* components out of range carry over
Overflow == /\ Serial(cal, [d EXCEPT ![4] = 24]) = <<N[1] + 1, 0>> /\ Serial(cal, [d EXCEPT ![6] = -1]) = <<N[1] - 1, 86399>>
            /\ Serial(cal, [d EXCEPT ![5] = 61, ![6] = 61]) = <<N[1], 3721>>
            /\ cal = "yearless" \/ (Serial(cal, [d EXCEPT ![2] = @ + 12]) = Serial(cal, [d EXCEPT ![1] = @ + 1]) /\ Serial(cal, [d EXCEPT ![2] = @ - 12]) = Serial(cal, [d EXCEPT ![1] = @ - 1]))
\* a season is a run of months
Seasons == cal = "yearless" \/ LET t == Tomorrow(cal, d) IN
             IF SeasonOf(t[2]) = SeasonOf(d[2]) THEN SeasonYear(t) = SeasonYear(d)
             ELSE SeasonOf(t[2]) = (SeasonOf(d[2]) % 4) + 1 /\ SeasonYear(t) = SeasonYear(d) + (IF SeasonOf(t[2]) = 1 THEN 1 ELSE 0)
Emit == (cal # "yearless" /\ d[3] \in {1, 28, 29, 30, 31} /\ Emits(60, [cal |-> cal, d |-> d])) => PrintT("@G" \o ToJson([cal |-> cal, d |-> d]))
=============================================================================
