-------------------------------- MODULE TTick --------------------------------
(* Trace specification of the tick generators.                                 *)
EXTENDS Ticks, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
F(b, c) == IF b THEN <<>> ELSE <<c>>
Start(e) == Serial(e.cal, e.start)
Bounds(e) == <<AddI(Start(e), e.a), AddI(Start(e), e.b)>>
Abs2(e, obs) == [i \in 1..Len(obs) |-> AddI(Start(e), obs[i])]
Inside(e, ts) == LET w == Bounds(e) IN \A i \in 1..Len(ts) : LeI(w[1], ts[i]) /\ LtI(ts[i], w[2])
Ordered(ts) == \A i \in 2..Len(ts) : LtI(ts[i - 1], ts[i])
TickBad(e) ==
  LET w == Bounds(e)
      ts == Abs2(e, e.obs.t)
      want == TickSet(e.cal, e.unit, e.mult, w[1], w[2])
  IN F(Ordered(ts), "out-of-order-or-repeated") \o F(Inside(e, ts), "tick-outside-the-interval")
     \o F(\A i \in 1..Len(ts) : Aligned(e.cal, e.unit, e.mult, ts[i]), "tick-not-aligned")
     \o F(want \subseteq {ts[i] : i \in 1..Len(ts)}, "tick-missing")
     \o F(e.obs.n = -1 \/ e.obs.n = Cardinality(want), "wrong-count")
\* the automatic locator: the ticks of one of the generators, at one of its multiples
AutoBad(e) ==
  LET w == Bounds(e)
      ts == Abs2(e, e.obs.t)
      set == {ts[i] : i \in 1..Len(ts)}
  IN F(Ordered(ts), "out-of-order-or-repeated") \o F(Inside(e, ts), "tick-outside-the-interval")
     \o F(\E i \in 1..Len(e.gens) : LET g == e.gens[i] IN
             /\ \A t \in set : Aligned(e.cal, g.unit, g.mult, t)
             /\ Cardinality(TickSet(e.cal, g.unit, g.mult, w[1], w[2])) = Cardinality(set), "not-the-ticks-of-any-unit")
PriorBad(e) ==   \* the last tick before an instant
  LET t == Serial(e.cal, e.obs.d) b == AddI(Start(e), e.b)
  IN F(Aligned(e.cal, e.unit, e.mult, t), "tick-not-aligned") \o F(LtI(t, b), "tick-not-before") \o F(~LtI(t, b) \/ Cardinality(TickSet(e.cal, e.unit, e.mult, t, b)) = 1, "not-the-last-tick-before")
Bad(e) ==
  IF e.op = "begin" THEN <<>> ELSE IF e.obs.k = "hang" THEN <<"does-not-return">> ELSE IF e.obs.k = "err" THEN <<"raised-error">>
  ELSE CASE e.op = "ticks" -> TickBad(e) [] e.op = "auto" -> AutoBad(e) [] e.op = "prior" -> PriorBad(e)
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET bad == Bad(Trace[l]) IN bad = <<>> \/ PrintT("@@" \o ToJson([line |-> l, clauses |-> bad]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
