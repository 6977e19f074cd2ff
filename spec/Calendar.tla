------------------------------- MODULE Calendar -------------------------------
(* Calendars.  cal: "std" (Gregorian), "365", "360", "yearless".               *)
(* A date is <<year, month, day, hour, minute, second>>; an instant is         *)
(* <<day number, second of the day>>, day 0 being 1 January of year 1 (or day  *)
(* 1 of a yearless calendar).                                                  *)
EXTENDS Integers, Sequences

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
LeapIn(c, y) == c = "std" /\ Leap(y)
MLEN == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
CUM == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365>>
MonthLen(c, y, m) == IF c = "360" THEN 30 ELSE MLEN[m] + (IF m = 2 /\ LeapIn(c, y) THEN 1 ELSE 0)
DaysBefore(c, y, m) == IF c = "360" THEN 30 * (m - 1) ELSE CUM[m] + (IF m > 2 /\ LeapIn(c, y) THEN 1 ELSE 0)
YearLen(c, y) == IF c = "360" THEN 360 ELSE 365 + (IF LeapIn(c, y) THEN 1 ELSE 0)
YearStart(c, y) == LET p == y - 1 IN
  IF c = "360" THEN 360 * p ELSE IF c = "365" THEN 365 * p ELSE 365 * p + p \div 4 - p \div 100 + p \div 400
\* carry seconds into days
Carry(d, s) == <<d + s \div 86400, s % 86400>>
AddI(a, b) == Carry(a[1] + b[1], a[2] + b[2])
SubI(a, b) == Carry(a[1] - b[1], a[2] - b[2])
LtI(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
LeI(a, b) == a = b \/ LtI(a, b)
\* components beyond their range carry over into the next larger one
Serial(c, d) ==
  LET secs == d[5] * 60 + d[6]
      t == Carry((d[4] \div 24), (d[4] % 24) * 3600 + secs)
  IN IF c = "yearless" THEN <<d[3] - 1 + t[1], t[2]>>
     ELSE LET y == d[1] + (d[2] - 1) \div 12
              m == ((d[2] - 1) % 12) + 1
          IN <<YearStart(c, y) + DaysBefore(c, y, m) + d[3] - 1 + t[1], t[2]>>
YearOf(c, n) ==   \* year holding day number n
  LET e == IF c = "360" THEN n \div 360 ELSE IF c = "365" THEN n \div 365 ELSE (n \div 146097) * 400 + ((n % 146097) * 4) \div 1461
  IN CHOOSE y \in (e - 1)..(e + 2) : YearStart(c, y) <= n /\ n < YearStart(c, y + 1)
MonthOf(c, y, k) == CHOOSE m \in 1..12 : DaysBefore(c, y, m) <= k /\ k < DaysBefore(c, y, m) + MonthLen(c, y, m)
DateOf(c, t) ==
  LET hms == <<t[2] \div 3600, (t[2] \div 60) % 60, t[2] % 60>>
  IN IF c = "yearless" THEN <<0, 1, t[1] + 1>> \o hms
     ELSE LET y == YearOf(c, t[1])
              k == t[1] - YearStart(c, y)
              m == MonthOf(c, y, k)
          IN <<y, m, k - DaysBefore(c, y, m) + 1>> \o hms
Valid(c, d) == /\ d[4] \in 0..23 /\ d[5] \in 0..59 /\ d[6] \in 0..59
               /\ c = "yearless" \/ (d[2] \in 1..12 /\ d[3] \in 1..MonthLen(c, d[1], d[2]))
DayOfYear(c, d) == DaysBefore(c, d[1], d[2]) + d[3]
\* seasons: December belongs to the winter of the following year
SeasonOf(m) == IF m \in {12, 1, 2} THEN 1 ELSE IF m <= 5 THEN 2 ELSE IF m <= 8 THEN 3 ELSE 4
SeasonYear(d) == IF d[2] = 12 THEN d[1] + 1 ELSE d[1]
\* ---- independent statement of what the next day is
Tomorrow(c, d) ==
  IF c = "yearless" THEN [d EXCEPT ![3] = @ + 1]
  ELSE IF d[3] < MonthLen(c, d[1], d[2]) THEN [d EXCEPT ![3] = @ + 1]
  ELSE IF d[2] < 12 THEN [d EXCEPT ![2] = @ + 1, ![3] = 1]
  ELSE [d EXCEPT ![1] = @ + 1, ![2] = 1, ![3] = 1]
USEC(u) == CASE u = "seconds" -> 1 [] u = "minutes" -> 60 [] u = "hours" -> 3600 [] u = "days" -> 86400
Lex(a, b) == \E k \in 1..Len(a) : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
=============================================================================
