-------------------------------- MODULE TAxis --------------------------------
(* Trace specification: comparing and mapping pairs of real axes.              *)
EXTENDS LAxis, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
F(b, c) == IF b THEN <<>> ELSE <<c>>
EqBad(e) == LET want == AxisEq(e.a, e.b) IN
  F(e.obs.aa /\ e.obs.bb, "reflexive") \o F(e.obs.ab = e.obs.ba, "symmetric")
  \o F(e.obs.ab = want \/ (~want /\ e.loose /\ EqOpen(e.a, e.b)), IF want THEN "equal-axes-not-identified" ELSE "different-axes-identified")
  \o F(e.obs.ne = ~e.obs.ab, "inequality-is-not-the-negation")
MapBad(e) ==
  IF e.obs.k = "none" THEN F(~(IF IsNonC(e.a) THEN e.a.k = e.b.k /\ Common(e.a, e.b) # {} ELSE Mappable2(e.a, e.b)), "no-mapping-between-matching-axes")
  ELSE IF IsNonC(e.a) THEN F(IsKind(e.b.k, e.a.k) /\ Common(e.a, e.b) # {} /\ NonCOk(e.a, e.b, e.obs.ix), "wrong-positions")
  ELSE IF ~Mappable2(e.a, e.b) THEN <<"unrelated-axes-mapped">>
  ELSE F(MapOk(e.a, e.b, e.obs.ix, e.loose) \/ (e.loose /\ EqOpen(e.a, e.b) /\ e.obs.ix = [i \in 1..Len(e.a.v) |-> i - 1]), "wrong-positions")
Bad(e) == IF e.obs.k \in {"err", "hang"} THEN <<"raised-error">>
          ELSE CASE e.op = "eq" -> EqBad(e) [] e.op = "map" -> MapBad(e)
                 [] e.op = "begin" -> <<>>
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET bad == Bad(Trace[l]) IN bad = <<>> \/ PrintT("@@" \o ToJson([line |-> l, clauses |-> bad]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
