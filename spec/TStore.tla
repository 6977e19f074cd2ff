------------------------------- MODULE TStore -------------------------------
(* Trace specification of files: saving and opening (round, C15), opening      *)
(* files written by others (open, C16) and reading parts of them (ask).        *)
EXTENDS Store, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
AbsI(n) == IF n < 0 THEN -n ELSE n
\* packed values: integer codes of source and result, lo..hi the range of the source
PackBad(p) ==
  LET step == (p.hi - p.lo) + (p.hi - p.lo) \div 16 + 600000
  IN F(Len(p.s) = Len(p.u), "packed-shape")
  \o (IF Len(p.s) # Len(p.u) THEN <<>> ELSE
      F(\A i \in 1..Len(p.s) : (p.s[i] = NOF) <=> (p.u[i] = NOF), "packed-missing-values")
   \o F(\A i \in 1..Len(p.s) : p.s[i] = NOF \/ p.u[i] = NOF \/ (AbsI(p.s[i] - p.u[i]) < 16000 /\ AbsI(p.s[i] - p.u[i]) * 131068 <= step), "not-within-half-a-quantum"))
\* packed variables are compared apart
Blank(ds, pk, fix) == [ds EXCEPT !.vars = [i \in 1..Len(@) |-> LET n == IF fix THEN FixName(ds.vars[i].c) ELSE ds.vars[i].n
    IN IF n \in pk THEN [ds.vars[i] EXCEPT !.n = n, !.t = "packed", !.v = <<>>, !.at = Without(@, PACKK \cup {"packing_convention"})] ELSE [ds.vars[i] EXCEPT !.n = n]]]
RoundBad(e) ==
  LET pk == {e.pack[i].n : i \in 1..Len(e.pack)}
      r == IF e.res.k = "err" THEN <<"raised-error">> ELSE Round(Blank(e.ds, pk, e.cf), Blank(e.res, pk, FALSE), e.cf, e.v3) IN
    F(e.aft = e.ds, "source-altered") \o r \o Cat([i \in 1..Len(e.pack) |-> PackBad(e.pack[i])])
\* ---- opened files
OpenBad(e) ==
  LET w == Decode(e.f, e.o) o == e.obs IN
  IF o.k = "err" THEN <<"raised-error">>
  ELSE F(NamesOf(w.vars) = NamesOf(o.vars) /\ Len(w.vars) = Len(o.vars), "wrong-set-of-variables")
    \o F(NamesOf(w.ax) = NamesOf(o.ax) /\ Len(w.ax) = Len(o.ax), "wrong-set-of-axes")
    \o Cat([i \in 1..Len(w.vars) |-> IF Has1(o.vars, w.vars[i].n) THEN VarBad(w.vars[i], Get1(o.vars, w.vars[i].n)) ELSE <<>>])
    \o Cat([i \in 1..Len(w.ax) |-> IF Has1(o.ax, w.ax[i].n) THEN AxisBad(w.ax[i], Get1(o.ax, w.ax[i].n)) ELSE <<>>])
    \o F(AttSame(w.at, o.at, {}), "wrong-global-attributes")
AskBad(e) ==
  LET w == Get1(Decode(e.f, e.o).vars, e.n)
      at == Flat(e.sh, e.rq, 0)
  IN IF e.obs.k = "err" THEN <<"raised-error">>
     ELSE F(Len(e.obs.dat) = Len(at) /\ \A i \in 1..Len(at) : NumOK(w.v[at[i] + 1], e.obs.dat[i]), "wrong-values-of-part")
----------------------------------------------------------------------------
Bad(e) ==
  IF e.op = "begin" THEN <<>>
  ELSE CASE e.op = "round" -> RoundBad(e) [] e.op = "groups" -> F(e.got = e.want, "wrong-groups") [] e.op = "refuse" -> F(e.obs.k = "err", "accepted")
         [] e.op = "open" -> OpenBad(e) [] e.op = "ask" -> AskBad(e)
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET bad == Bad(Trace[l]) IN bad = <<>> \/ PrintT("@@" \o ToJson([line |-> l, clauses |-> bad]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
