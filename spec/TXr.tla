-------------------------------- MODULE TXr --------------------------------
(* Trace specification of the exchange of datasets with xarray: what the arrays *)
(* handed over hold and how they are broken up (to), parts of them (part), what *)
(* comes back (back), and what is made of arrays of others (from, ask).         *)
EXTENDS Store, Blocks, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Fixed(ds) == [ds EXCEPT !.vars = [i \in 1..Len(@) |-> [ds.vars[i] EXCEPT !.n = FixName(ds.vars[i].c)]]]
CoordBad(a, o) ==
  LET c == Named(o.coords, a.n) d == Named(o.dims, a.n) IN
     F(d # <<>> /\ d[1].l = Len(a.v), "length-of-dimension")
  \o (IF Loose(a.k) \/ a.k = "DummyAxis" THEN <<>>
      ELSE IF c = <<>> THEN <<"coordinate-missing">>
      ELSE IF a.k = "time" THEN F(c[1].d = a.tm.d \/ c[1].d = [i \in 1..Len(a.tm.d) |-> Fill(a.tm.d[i], D0)], "dates-differ")
      ELSE F(c[1].v = a.v, "coordinates-differ"))
XVarBad(v, o, sh, lim) ==
  LET x == Named(o.vars, v.n) IN
  IF x = <<>> THEN <<"variable-missing">>
  ELSE F(x[1].d = v.ax, "dimensions-of-variable") \o F(x[1].t = v.t, "type-of-variable") \o F(x[1].v = v.v, "values-differ")
    \o (IF ~x[1].lazy THEN <<>>
        ELSE F(Tiles(sh, x[1].chunks), "blocks-do-not-tile")
          \o F(Empty(sh) \/ Fits(x[1].chunks, lim), "block-larger-than-limit")
          \o F(x[1].before = 0, "read-while-being-converted")
          \o F(\A i \in 1..Len(x[1].seen) : x[1].seen[i] = 1, "element-not-read-once"))
ToBad(e) ==
  IF e.obs.k = "err" THEN <<"raised-error">>
  ELSE LET ds == Fixed(e.ds) IN
       Cat([i \in 1..Len(ds.ax) |-> CoordBad(ds.ax[i], e.obs)])
    \o Cat([i \in 1..Len(ds.vars) |-> XVarBad(ds.vars[i], e.obs, e.sh[i], e.lim)])
    \o F(e.aft = e.ds, "source-altered")
BackBad(e) == IF e.obs.k = "err" THEN <<"raised-error">> ELSE LET ds == Fixed(e.ds) IN Round(ds, e.res, TRUE, FALSE)
FromBad(e) ==
  LET w == Decode(e.f, e.o) o == e.obs IN
  IF o.k = "err" THEN <<"raised-error">>
  ELSE F(NamesOf(w.vars) = NamesOf(o.vars) /\ Len(w.vars) = Len(o.vars), "wrong-set-of-variables")
    \o F(NamesOf(w.ax) = NamesOf(o.ax) /\ Len(w.ax) = Len(o.ax), "wrong-set-of-axes")
    \o Cat([i \in 1..Len(w.vars) |-> IF Has1(o.vars, w.vars[i].n) THEN VarBad(w.vars[i], Get1(o.vars, w.vars[i].n)) ELSE <<>>])
    \o Cat([i \in 1..Len(w.ax) |-> IF Has1(o.ax, w.ax[i].n) THEN AxisBad2(w.ax[i], Get1(o.ax, w.ax[i].n), ~e.dec) ELSE <<>>])
    \o F(AttSame(w.at, o.at, {}), "wrong-global-attributes")
\* parts: positions along each axis (from 0), of values in row-major order
PartBad(e) == IF e.obs.k = "err" THEN <<"raised-error">>
  ELSE LET at == Flat(e.sh, e.rq, 0) IN F(Len(e.obs.dat) = Len(at) /\ \A i \in 1..Len(at) : e.v[at[i] + 1] = e.obs.dat[i], "wrong-values-of-part")
GridBad(e) == F(e.obs.k # "err" /\ Tiles(e.sh, e.grid) /\ (Empty(e.sh) \/ Fits(e.grid, e.lim)), "blocks-do-not-tile") \o F(e.obs.k = "err" \/ e.whole, "parts-put-together-wrong")
Bad(e) == CASE e.op = "begin" -> <<>> [] e.op = "to" -> ToBad(e) [] e.op = "back" -> BackBad(e) [] e.op = "from" -> FromBad(e) [] e.op = "part" -> PartBad(e) [] e.op = "grid" -> GridBad(e)
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET bad == Bad(Trace[l]) IN bad = <<>> \/ PrintT("@@" \o ToJson([line |-> l, clauses |-> bad]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
