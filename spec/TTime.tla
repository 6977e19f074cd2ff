-------------------------------- MODULE TTime --------------------------------
(* Trace specification of operations on time axes recorded from the real code. *)
EXTENDS TimeAx, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
F(b, c) == IF b THEN <<>> ELSE <<c>>
Ax(o) == F(Sane(o), "numbers-do-not-denote-the-dates")
EqBad(e) == F(e.obs.eq = Same(e.a, e.b), "wrong-equality") \o F(e.obs.ne = ~Same(e.a, e.b), "wrong-inequality")
MapBad(e) ==
  IF ~Mappable(e.a, e.b) THEN F(e.obs.none, "mapped-incompatible-axes")
  ELSE IF e.obs.none THEN <<"no-map">> ELSE F(MapOK(e.a, e.b, e.obs.ix), "wrong-map")
CMapBad(e) ==
  LET ks == Keys(e.a) \cap Keys(e.b)
      want == CommonPairs(e.a, e.b)
  IN IF e.a.cal # e.b.cal THEN F(e.obs.k = "err", "mapped-incompatible-axes")
     ELSE IF ks = {} \/ (Dup(e.a, ks) /\ Dup(e.b, ks)) THEN <<>>
     ELSE IF e.obs.k = "err" THEN <<"raised-error">>
     ELSE F({<<e.obs.ia[k], e.obs.ib[k]>> : k \in 1..Len(e.obs.ia)} = want /\ Len(e.obs.ia) = Cardinality(want), "wrong-pairs")
RelBad(e) == F(e.obs.v = Written(e.a.cal, e.a.d, IF e.given THEN e.start ELSE e.a.start), "wrong-relative-times")
Deltas(a) == [i \in 1..(Len(a.d) - 1) |-> SubI(Inst(a.cal, a.d[i + 1]), Inst(a.cal, a.d[i]))]
DeltaBad(e) ==
  LET ds == Deltas(e.a)
      even == \A i \in 1..Len(ds) : ds[i] = ds[1]
      least == IF ds = <<>> THEN <<0, 0>> ELSE CHOOSE p \in SetOf(ds) : \A q \in SetOf(ds) : LeI(p, q)
  IN IF ~e.clear THEN <<>>
     ELSE IF ds # <<>> /\ ~even /\ ~e.multi THEN F(e.obs.k = "err", "uneven-increments-accepted")
     ELSE IF e.obs.k = "err" THEN <<"raised-error">>
     ELSE F(e.obs.v = least, "wrong-increment")
DiffBad(e) == F(e.obs.v = SubI(Inst(e.cal, e.g), Inst(e.cal, e.f)), "wrong-difference")
WrapBad(e) == F(e.obs.d = Only(DateOf(e.a.cal, Inst(e.a.cal, e.f)), IF e.all THEN 1..6 ELSE Has(e.a.start)), "wrong-date")
\* the same dates written with another start date and unit
ReBad(e) ==
  LET o == e.obs.ax IN
  F(o.cal = e.a.cal /\ o.d = e.a.d /\ Keys(o) = Keys(e.a), "dates-changed") \o Ax(o) \o F(o.unit = e.unit, "wrong-unit")
  \o F(IsS(o.cal) \/ ~e.given \/ o.start = Only(Fill(e.start, D1), Keys(o)), "wrong-start-date")
ModBad(e) ==
  LET o == e.obs.ax
      ks == ((Keys(e.a) \cap (IF e.incl = <<>> THEN 1..6 ELSE SetOf(e.incl))) \ SetOf(e.excl)) \cap 1..e.res
      d == [i \in 1..Len(e.a.d) |-> Only(e.a.d[i], ks)]
  IN IF ks = {} THEN <<>>
     ELSE IF e.obs.k = "err" THEN <<"raised-error">>
     ELSE F(o.cal = e.a.cal /\ Keys(o) = ks, "wrong-components") \o F(IF e.uniq THEN Distinct(d, o.d) ELSE o.d = d, "wrong-dates") \o Ax(o) \o F(o.unit = e.a.unit, "wrong-unit")
     \o F(IsS(o.cal) \/ o.start = Only(e.a.start, ks), "wrong-start-date")
\* e.two: what the second axis of the pair was; the pair may come back swapped
ConfBad(e) ==
  LET x == e.obs.x  y == e.obs.y
      sup(p, q) == Keys(q) \subseteq Keys(p) /\ \A i \in Keys(p) \ Keys(q) : \A j \in Keys(q) : j < i
      \* components the first uses beyond the second must be finer
      ok == e.a.cal = e.b.cal /\ (sup(e.a, e.b) \/ sup(e.b, e.a))
  IN IF ~ok THEN F(e.obs.k = "err", "incompatible-axes-conformed")
     ELSE IF e.obs.k = "err" THEN <<"raised-error">>
     ELSE F((Same(x, e.a) /\ Same(y, e.b)) \/ (Same(x, e.b) /\ Same(y, e.a)), "dates-changed") \o Ax(x) \o Ax(y)
          \o F(x.unit = y.unit /\ Start(x.cal, x.start) = Start(y.cal, y.start), "not-comparable")
SubBad(e) ==
  LET o == e.obs.ax IN
  F(o.cal = e.a.cal /\ Keys(o) = Keys(e.a) /\ o.d = [i \in 1..Len(e.ix) |-> e.a.d[e.ix[i]]], "wrong-dates") \o Ax(o)
  \o F(o.unit = e.a.unit /\ o.start = e.a.start, "unit-or-start-date-changed")
RECURSIVE Join(_)
Join(as) == IF as = <<>> THEN <<>> ELSE Head(as).d \o Join(Tail(as))
CatBad(e) ==
  LET o == e.obs.ax IN
  IF \E i \in 1..Len(e.as) : BaseCal(e.as[i].cal) # BaseCal(e.as[1].cal) THEN F(e.obs.k = "err", "calendars-mixed")
  \* (a seasonal axis is a kind of standard axis: mixing those is left open)
  ELSE IF \E i \in 1..Len(e.as) : e.as[i].cal # e.as[1].cal THEN <<>>
  ELSE IF e.obs.k = "err" THEN <<"raised-error">>
  ELSE F(o.cal = e.as[1].cal /\ o.d = Join(e.as), "wrong-dates") \o Ax(o)
       \o F(e.obs.dat = e.dat, "wrong-values")
\* joining along another axis variables whose time axes denote the same dates
Cat2Bad(e) == F(Same(e.obs.ax, e.a) /\ Sane(e.obs.ax), "wrong-dates")
  \o F(e.obs.dat = [k \in 1..(3 * Len(e.a.d)) |-> LET i == (k - 1) \div 3  j == (k - 1) % 3 IN IF j = 2 THEN 100 + i ELSE 2 * i + j], "wrong-values")
\* v(a) + w(b), values 1000*position on a and position on b
ArithBad(e) ==
  LET o == e.obs
      n == Len(e.a.d)  m == Len(e.b.d)
      two == /\ Len(o.ax) = 2
             /\ \/ Same(o.ax[1], e.a) /\ Same(o.ax[2], e.b) /\ o.dat = [k \in 1..(n * m) |-> 1000 * (((k - 1) \div m) + 1) + ((k - 1) % m) + 1]
                \/ Same(o.ax[1], e.b) /\ Same(o.ax[2], e.a) /\ o.dat = [k \in 1..(n * m) |-> 1000 * (((k - 1) % n) + 1) + ((k - 1) \div n) + 1]
      on(f) == {1000 * i + j : i \in Hits(e.a, f), j \in Hits(e.b, f)}
      one(r) == Len(o.ax) = 1 /\ Same(o.ax[1], r) /\ Sane(o.ax[1]) /\ Len(o.dat) = Len(r.d) /\ \A k \in 1..Len(r.d) : o.dat[k] \in on(r.d[k])
      eqk == e.a.cal = e.b.cal /\ Keys(e.a) = Keys(e.b)
  IN IF o.k = "err" THEN
        F(~((Mappable(e.a, e.b) /\ Covers(e.a, e.b)) \/ (Mappable(e.b, e.a) /\ Covers(e.b, e.a))), "raised-error")
     ELSE IF Mappable(e.a, e.b) /\ Covers(e.a, e.b) /\ Mappable(e.b, e.a) /\ Covers(e.b, e.a) THEN F(one(e.a) \/ one(e.b), "wrong-values")
     ELSE IF Mappable(e.a, e.b) /\ Covers(e.a, e.b) THEN F(one(e.b), "wrong-values")
     ELSE IF Mappable(e.b, e.a) /\ Covers(e.b, e.a) THEN F(one(e.a), "wrong-values")
     ELSE IF eqk THEN <<"partly-overlapping-axes-combined">>
     ELSE F(two, IF e.a.cal # e.b.cal THEN "calendars-mixed" ELSE "unmatched-dates-combined")
\* a variable on axis a, read on axis b
\* start, end and reference date, step
RangeBad(e) ==
  LET ref == IF e.hasref THEN e.ref ELSE e.f
      o == e.obs.ax
      s0 == Start(e.cal, e.f)
      base == SubI(s0, Start(e.cal, ref))
      tot == SubI(Start(e.cal, e.g), s0)
      offs == IF e.n >= 0 THEN [k \in 1..e.n |-> MulI(e.step, k - 1)] ELSE Steps(0, e.step, tot, e.inc, LtI(e.step, <<0, 0>>))
      allowed == IF e.cal = "yearless" THEN 3..6 ELSE 1..6
      sd == Only(Fill(ref, D1), allowed)
  IN F(o.cal = e.cal /\ o.d = [k \in 1..Len(offs) |-> Only(DateOf(e.cal, AddI(s0, offs[k])), allowed)], "wrong-dates")
     \o F(o.start = sd, "wrong-start-date") \o F(o.unit = e.unit, "wrong-unit") \o Ax(o)
----------------------------------------------------------------------------
Bad(e) ==
  IF e.op = "begin" THEN <<>>
  ELSE IF e.obs.k = "hang" THEN <<"does-not-return">>
  ELSE IF e.op = "cmap" THEN CMapBad(e) ELSE IF e.op = "delta" THEN DeltaBad(e) ELSE IF e.op = "conf" THEN ConfBad(e)
  ELSE IF e.op = "cat" THEN CatBad(e) ELSE IF e.op = "arith" THEN ArithBad(e) ELSE IF e.op = "mod" THEN ModBad(e)
  ELSE IF e.obs.k = "err" THEN <<"raised-error">>
  ELSE CASE e.op = "eq" -> EqBad(e) [] e.op = "cat2" -> Cat2Bad(e) [] e.op = "map" -> MapBad(e) [] e.op = "rel" -> RelBad(e) [] e.op = "diff" -> DiffBad(e)
         [] e.op = "wrap" -> WrapBad(e) [] e.op = "re" -> ReBad(e) [] e.op = "sub" -> SubBad(e) [] e.op = "range" -> RangeBad(e)
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET bad == Bad(Trace[l]) IN bad = <<>> \/ PrintT("@@" \o ToJson([line |-> l, clauses |-> bad]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
