-------------------------------- MODULE TPlot --------------------------------
(* Trace specification of plots: every call that reaches the drawing library.  *)
EXTENDS Plot, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
F(b, c) == IF b THEN <<>> ELSE <<c>>
AxisLabel(on, t) == IF on THEN Label(t) ELSE ""
\* the frame: limits along a coordinate, its label
FrameBad(e, ax, lim, lab, on) == F(lim = Limits(ax), "wrong-limits") \o F(e.lab = 0 \/ lab = AxisLabel(on, ax.t), "wrong-axis-label")
TitleBad(e) == F(e.lab < 2 \/ e.obs.title = Title(e.t, e.pts), "wrong-title")
\* a surface is drawn once for each request, each time whole: values at their coordinates
Drawn(v, tr, c) == \E s \in Surfaces(v, tr) : c.x = s.x /\ c.y = s.y /\ c.z = s.z
SurfBad(e) ==
  LET w == Wide(e.v.ax)
      ok(f) == \A i \in 1..Len(e.obs.calls) : LET c == e.obs.calls[i] IN
                 \A j \in 1..Len(e.zs) : LET s == Surface([e.v EXCEPT !.dat = e.zs[j].dat, !.s = e.zs[j].s], f) IN c.x = s.x /\ c.y = s.y /\ c.z[j] = s.z
      fs == {f \in Across(w[1].f, w[2].f, e.tr) : ok(f)}
      kinds == [i \in 1..Len(e.obs.calls) |-> <<e.obs.calls[i].m, e.obs.calls[i].lv>>]
  IN F(kinds = [i \in 1..Len(e.calls) |-> <<e.calls[i].m, e.calls[i].lv>>], "wrong-kind-or-levels")
     \o F(\A i \in 1..Len(e.obs.calls) : Len(e.obs.calls[i].z) = Len(e.zs), "wrong-number-of-fields")
     \o (IF fs = {} THEN <<"values-not-at-their-coordinates">>
         ELSE IF e.lim = 0 THEN <<>> ELSE LET f == CHOOSE f \in fs : TRUE a == IF f THEN w[1] ELSE w[2] b == IF f THEN w[2] ELSE w[1]
              IN FrameBad(e, a, e.obs.xl, e.obs.xlab, e.lblx) \o FrameBad(e, b, e.obs.yl, e.obs.ylab, e.lbly))
     \o TitleBad(e)
LineBad(e) ==
  LET a == Wide(e.v.ax)[1]
      s == Line(e.v, e.tr)
      c == CoordAcross(a.f, e.tr)
  IN F(e.obs.x = s.x /\ e.obs.y = s.y, "values-not-at-their-coordinates")
     \o (IF e.lim = 0 THEN <<>> ELSE
         F((IF c THEN e.obs.xl ELSE e.obs.yl) = Limits(a), "wrong-limits")
         \o F(e.lab = 0 \/ (e.obs.xlab = AxisLabel(e.lblx, IF c THEN a.t ELSE e.t) /\ e.obs.ylab = AxisLabel(e.lbly, IF c THEN e.t ELSE a.t)), "wrong-axis-label"))
     \o TitleBad(e)
\* the older plotvar
OldFrame(e, ax, lim, lab, on) == F(lim = Limits(ax), "wrong-limits") \o F(lab = (IF on THEN OldLabel(ax.t) ELSE ""), "wrong-axis-label")
OldBad(e) ==
  LET w == Wide(e.v.ax) f == OldAcross(w[1].f, w[2].f)
      s0 == OldSurface(e.v) s == IF e.around THEN Around(s0) ELSE s0
      a == IF f THEN w[1] ELSE w[2] b == IF f THEN w[2] ELSE w[1]
      kinds == [i \in 1..Len(e.obs.calls) |-> <<e.obs.calls[i].m, e.obs.calls[i].lv>>]
  IN F(kinds = [i \in 1..Len(e.calls) |-> <<e.calls[i].m, e.calls[i].lv>>], "wrong-kind-or-levels")
     \o F(\A i \in 1..Len(e.obs.calls) : LET c == e.obs.calls[i] IN c.x = s.x /\ c.y = s.y /\ c.z = <<s.z>>, "values-not-at-their-coordinates")
     \o (IF e.around THEN <<>> ELSE OldFrame(e, a, e.obs.xl, e.obs.xlab, e.lblx)) \o OldFrame(e, b, e.obs.yl, e.obs.ylab, e.lbly)
     \o F(e.obs.title = OldTitle(e.t, e.pts), "wrong-title")
OldLineBad(e) ==
  LET a == Wide(e.v.ax)[1] s == Line(e.v, "none") c == CoordAcross(a.f, "none")
  IN F(e.obs.x = s.x /\ e.obs.y = s.y, "values-not-at-their-coordinates")
     \o F((IF c THEN e.obs.xl ELSE e.obs.yl) = Limits(a), "wrong-limits")
     \o F(e.obs.xlab = (IF e.lblx THEN OldLabel(IF c THEN a.t ELSE e.t) ELSE "") /\ e.obs.ylab = (IF e.lbly THEN OldLabel(IF c THEN e.t ELSE a.t) ELSE ""), "wrong-axis-label")
     \o F(e.obs.title = OldTitle(e.t, e.pts), "wrong-title")
\* points in any order, each with its two values
PointsBad(e) == F(Len(e.obs.x) = Len(e.vx.dat) /\ Len(e.obs.y) = Len(e.vy.dat) /\ e.obs.x = ScaledAll(e.vx.s, e.vx.dat) /\ e.obs.y = ScaledAll(e.vy.s, e.vy.dat), "wrong-points")
     \o F(e.lim = 0 \/ (e.obs.xlab = AxisLabel(e.lblx, e.vx.t) /\ e.obs.ylab = AxisLabel(e.lbly, e.vy.t)), "wrong-axis-label")
HistBad(e) == F(e.obs.x = ScaledAll(e.vx.s, e.vx.dat), "wrong-values") \o F(e.obs.xlab = AxisLabel(e.lblx, e.vx.t), "wrong-axis-label") \o TitleBad(e)
TextBad(e) == F(Reads(e, e.obs.num), "wrong-number") \o F(e.obs.suf = Suffix(e), "wrong-hemisphere-or-units")
Styled(p) == [p EXCEPT !.style = IF p.style = "none" THEN (IF p.hasmin THEN "seq" ELSE "div") ELSE p.style]
LevelBad(e) ==
  LET r == CASE e.kind = "clf" -> Clf(Styled(e.p))
             [] e.kind = "cl" -> [cf |-> <<>>, cl |-> Cl(e.p), tk |-> <<>>]
             [] e.kind = "log1" -> Log1(e.p)
             [] e.kind = "log2" -> Log2(e.p, e.p.nf, e.p.nl)
  IN F(e.p.nf = 0 \/ e.obs.cf = r.cf, "wrong-filled-levels") \o F(e.p.nl = 0 \/ e.obs.cl = r.cl, "wrong-line-levels")
     \o F(e.p.bar = 0 \/ e.obs.tk = r.tk, "wrong-ticks") \o F(e.p.bar = 1 \/ e.kind = "cl" \/ e.obs.tk = <<>>, "unwanted-colorbar")
NormBad(e) == F(\A i \in 1..Len(e.js) : e.obs.pos[i] = (IF e.js[i] = Missing THEN Missing ELSE Norm2(e.n, e.k, e.js[i])), "wrong-position")
              \o F(\A i \in 1..Len(e.js) : e.obs.inv[i] = e.js[i], "does-not-invert")
GuessBad(e) ==
  LET S == {e.z[i] : i \in 1..Len(e.z)}
      lo == MinOf(S) hi == MaxOf(S)
      style == IF e.style # "none" THEN e.style ELSE IF lo < 0 /\ hi > 0 THEN "div" ELSE "seq"
      nd == IF e.ndiv > 0 THEN e.ndiv ELSE IF ~e.clf THEN 10 ELSE IF style = "div" THEN 3 ELSE 5
      need == IF style = "div" THEN (IF -lo > hi THEN -lo ELSE hi) ELSE hi - lo
      o == e.obs
  IN F(Guessed(o.spc, nd, need), "wrong-interval")
     \o (IF e.clf THEN F(o.ndiv = nd, "wrong-divisions") \o F(o.style = style, "wrong-style") \o F(o.nf >= 1, "no-filled-levels")
         ELSE F(2 * o.range = (IF style = "div" THEN 2 ELSE 1) * nd * o.spc, "wrong-range"))
     \o F((o.min # Missing) = (style = "seq"), "wrong-minimum")
     \o F(style # "seq" \/ o.min = Missing \/ (o.min % o.spc = 0 /\ o.min <= lo /\ lo <= o.min + o.spc), "wrong-minimum")
GridBad(e) == F(e.obs.boxes = Boxes(e.sz), "wrong-place") \o F(e.obs.size = <<2 * ColsTo(e.sz, Len(e.sz[1])), 2 * RowsTo(e.sz, Len(e.sz))>>, "wrong-size")
Bad(e) ==
  IF e.op = "begin" THEN <<>> ELSE IF e.obs.k = "hang" THEN <<"does-not-return">> ELSE IF e.obs.k = "err" THEN <<"raised-error">>
  ELSE CASE e.op = "surface" -> SurfBad(e) [] e.op = "old" -> OldBad(e) [] e.op = "oldline" -> OldLineBad(e) [] e.op = "line" -> LineBad(e) [] e.op = "points" -> PointsBad(e) [] e.op = "hist" -> HistBad(e)
         [] e.op = "text" -> TextBad(e) [] e.op = "levels" -> LevelBad(e) [] e.op = "norm" -> NormBad(e) [] e.op = "guess" -> GuessBad(e) [] e.op = "grid" -> GridBad(e)
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET bad == Bad(Trace[l]) IN bad = <<>> \/ PrintT("@@" \o ToJson([line |-> l, clauses |-> bad]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
