-------------------------------- MODULE TCal --------------------------------
(* Trace specification of the calendars: conversions, axis construction,       *)
(* seasons, formatting and parsing recorded from the real code.                *)
(* A field list has one entry per component; NOF marks a component not given.  *)
EXTENDS Calendar, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
F(b, c) == IF b THEN <<>> ELSE <<c>>
NOF == -99999
Fill(f, dflt) == [i \in 1..6 |-> IF f[i] = NOF THEN dflt[i] ELSE f[i]]
D0 == <<0, 1, 1, 0, 0, 0>>     \* what a missing component counts as
D1 == <<1, 1, 1, 0, 0, 0>>     \* start dates of axes
At(e, p) == AddI(Serial(e.cal, Fill(e.start, D0)), p)
Has(f) == {i \in 1..6 : f[i] # NOF}

\* the components of the calendar
Allowed(c) == IF c = "yearless" THEN 3..6 ELSE 1..6
Only(d, keys) == [i \in 1..6 |-> IF i \in keys THEN d[i] ELSE NOF]
Set(s) == {s[i] : i \in 1..Len(s)}
\* one conversion there and back
ConvBad(e) ==
  LET keys == IF e.all THEN 1..6 ELSE Has(e.start)
      want == [i \in 1..Len(e.offs) |-> Only(DateOf(e.cal, At(e, e.offs[i])), keys)]
  IN F(e.obs.d = want, "wrong-dates") \o F(~e.rt \/ e.obs.back = e.offs, "not-inverse")
AsValBad(e) ==
  LET s == Serial(e.cal, Fill(e.start, D0))
  IN F(e.obs.back = [i \in 1..Len(e.f) |-> SubI(Serial(e.cal, Fill(e.f[i], D0)), s)], "wrong-values")
\* axes made from values and a start date, or from date fields
AxisBad(e) ==
  LET sd == Only(Fill(e.start, D1), Allowed(e.cal))
      s0 == Serial(e.cal, Fill(sd, D0))
      byval == e.how = "values"
      dates == IF byval THEN [i \in 1..Len(e.offs) |-> Only(DateOf(e.cal, AddI(s0, e.offs[i])), Allowed(e.cal))] ELSE e.f
      keys == Has(dates[1])
      start == IF byval THEN sd ELSE IF Has(e.start) = {} THEN dates[1] ELSE Only(Fill(e.start, D1), keys)
      st == Serial(e.cal, Fill(start, D0))
  IN F(e.obs.d = dates, "wrong-dates") \o F(e.obs.start = start, "wrong-start-date")
     \o F(e.obs.back = [i \in 1..Len(dates) |-> SubI(Serial(e.cal, Fill(dates[i], D0)), st)], "wrong-values")
     \o F(e.obs.unit = e.unit, "wrong-unit")
DimBad(e) == F(e.obs.v = MonthLen(e.cal, e.y, e.m), "wrong-month-length")
DoyBad(e) == F(e.obs.v = DayOfYear(e.cal, e.d), "wrong-day-of-year")
SeasonBad(e) ==
  LET s0 == Serial(e.cal, Fill(e.start, D1))
      ds == [i \in 1..Len(e.offs) |-> DateOf(e.cal, AddI(s0, e.offs[i]))]
  IN F(e.obs.d = [i \in 1..Len(ds) |-> <<SeasonYear(ds[i]), SeasonOf(ds[i][2])>>], "wrong-season")
\* an axis made of years and seasons lies at the middle of the seasons
SeasonMid(c, y, s) == Serial(c, <<y, <<1, 4, 7, 10>>[s], <<16, 15, 16, 16>>[s], 0, 0, 0>>)
SeasonAxBad(e) == F(e.obs.d = e.f, "wrong-season") \o F(\A i \in 1..Len(e.f) : SubI(SeasonMid(e.cal, e.f[i][1], e.f[i][2]), SeasonMid(e.cal, e.f[1][1], e.f[1][2])) = SubI(e.obs.back[i], e.obs.back[1]), "wrong-values")
----------------------------------------------------------------------------
(* printing *)
Abbr == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
Full == <<"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December">>
P2(n) == IF n \in 0..9 THEN "0" \o ToString(n) ELSE ToString(n)
AbsI(n) == IF n < 0 THEN -n ELSE n
Dir(c, has, d, k) ==
  LET h(i, s) == IF i \in has THEN s ELSE "" IN
  CASE k = "b" -> h(2, Abbr[d[2]]) [] k = "B" -> h(2, Full[d[2]]) [] k = "m" -> h(2, ToString(d[2]))
    [] k = "d" -> h(3, ToString(d[3])) [] k = "D" -> h(3, P2(d[3]))
    [] k = "H" -> h(4, P2(d[4])) [] k = "I" -> h(4, P2(((d[4] + 11) % 12) + 1))
    [] k = "p" -> h(4, IF d[4] < 12 THEN "am" ELSE "pm") [] k = "P" -> h(4, IF d[4] < 12 THEN "AM" ELSE "PM")
    [] k = "M" -> h(5, P2(d[5])) [] k = "S" -> h(6, P2(d[6]))
    [] k = "y" -> h(1, P2(d[1] % 100)) [] k = "a" -> h(1, ToString(d[1]))
    [] k = "Y" -> h(1, IF AbsI(d[1]) < 100 THEN "y" \o ToString(d[1]) ELSE ToString(d[1]))
    [] k = "j" -> IF {1, 3} \subseteq has THEN ToString(DayOfYear(c, d)) ELSE ""
    [] k = "$" -> "$"
RECURSIVE Text(_, _, _, _)
\* a format is a list of directives <<TRUE, k>> and literal text <<FALSE, text>>
Text(c, has, d, fmt) == IF fmt = <<>> THEN "" ELSE (IF Head(fmt).dir THEN Dir(c, has, d, Head(fmt).s) ELSE Head(fmt).s) \o Text(c, has, d, Tail(fmt))
FmtBad(e) ==
  LET d == DateOf(e.cal, At(e, e.off)) IN F(e.obs.s = Text(e.cal, Has(e.keys), Fill(Only(d, Has(e.keys)), D0), e.fmt), "wrong-text")
SeasonFmtBad(e) ==
  LET nm == <<"DJF", "MAM", "JJA", "SON">>
      d == DateOf(e.cal, AddI(Serial(e.cal, Fill(e.start, D1)), e.off))
  IN F(e.obs.s = nm[SeasonOf(d[2])] \o " " \o ToString(SeasonYear(d)) \o " " \o P2(SeasonYear(d) % 100), "wrong-text")
----------------------------------------------------------------------------
(* parsing: e.f are the components written in the text (day of year in e.doy),  *)
(* e.form whether the text has one of the documented forms                      *)
Exists(e) ==
  LET f == Fill(e.f, D0) IN
  IF e.doy # NOF THEN e.doy \in 1..YearLen(e.cal, f[1]) /\ f[4] \in 0..23 /\ f[5] \in 0..59 /\ f[6] \in 0..59
  ELSE Valid(e.cal, f)
Written(e) == IF e.doy # NOF THEN AddI(<<YearStart(e.cal, e.f[1]) + e.doy - 1, 0>>, SubI(Serial(e.cal, Fill(e.f, D0)), <<YearStart(e.cal, e.f[1]), 0>>))
              ELSE Serial(e.cal, Fill(e.f, D0))
ParseBad(e) ==
  IF ~e.form \/ ~Exists(e) THEN
       IF Fill(e.f, D0)[4] = 24 /\ e.form THEN <<>>     \* the end of the day, open
       ELSE F(e.obs.k = "err", IF e.form THEN "impossible-date-accepted" ELSE "malformed-date-accepted")
  ELSE IF e.obs.k = "err" THEN <<"raised-error">>
  ELSE F(e.obs.v = SubI(Written(e), Serial(e.cal, Fill(e.start, D0))), "wrong-date")
\* printing a date and reading the text again
RoundBad(e) ==
  LET d == DateOf(e.cal, At(e, e.off))
      kept == Only(d, {i \in 1..6 : i \in Set(e.res)})
  IN F(e.obs.v = SubI(Serial(e.cal, Fill(kept, D0)), Serial(e.cal, Fill(e.start, D0))), "text-read-as-another-date")
\* selecting with date strings: e.sel = instants (one, or the two ends of a range), ds the dates of the axis
SelBad(e) ==
  LET t(i) == Serial(e.cal, Fill(e.ds[i], D0))
      q(i) == Serial(e.cal, Fill(e.sel[i], D0))
      n == Len(e.ds)
      hit(i) == IF e.mode = "range" THEN (LeI(q(1), t(i)) /\ LeI(t(i), q(2))) \/ (LeI(q(2), t(i)) /\ LeI(t(i), q(1)))
               ELSE \E j \in 1..Len(e.sel) : t(i) = q(j)
      inside == e.mode = "range" \/ \A j \in 1..Len(e.sel) : \E i \in 1..n : t(i) = q(j)
  IN IF ~inside THEN <<>> ELSE F(e.obs.ix = SelectSeq([i \in 1..n |-> i], hit), "wrong-points")
----------------------------------------------------------------------------
Bad(e) ==
  IF e.op = "begin" THEN <<>>
  ELSE IF e.obs.k = "hang" THEN <<"does-not-return">>
  ELSE IF e.op = "parse" THEN ParseBad(e)
  ELSE IF e.op = "badstart" THEN F(e.obs.k = "err", "impossible-start-date-accepted")
  ELSE IF e.obs.k = "err" THEN <<"raised-error">>
  ELSE CASE e.op = "conv" -> ConvBad(e) [] e.op = "asval" -> AsValBad(e) [] e.op = "axis" -> AxisBad(e)
         [] e.op = "dim" -> DimBad(e) [] e.op = "doy" -> DoyBad(e) [] e.op = "season" -> SeasonBad(e) [] e.op = "seasonax" -> SeasonAxBad(e)
         [] e.op = "fmt" -> FmtBad(e) [] e.op = "sfmt" -> SeasonFmtBad(e) [] e.op = "round" -> RoundBad(e) [] e.op = "sel" -> SelBad(e)
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET bad == Bad(Trace[l]) IN bad = <<>> \/ PrintT("@@" \o ToJson([line |-> l, clauses |-> bad]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
