------------------------------- MODULE Store --------------------------------
(* Datasets in files.  A file holds dimensions, variables and attributes;      *)
(* Encode writes a dataset as such a file, Decode reads a file as a dataset,   *)
(* under the caller's options.  Values are opaque, except where they have to   *)
(* be unpacked or read as times (rationals).                                   *)
(*   dim   [n, lo, l]           name, name in lower case, length               *)
(*   var   [n, b, t, d, v, sv, at]  name, name of the text it spells ("" if    *)
(*         none), type, dimensions, values, values as text, attributes         *)
(*   att   [k, t, v]            t: "s" text <<text, lower case>>, "n" numbers, *)
(*         "w" list of names <<[w, s]>> (s: without the prefix of the axis),   *)
(*         "q" unit since date <<[r, d]>>                                      *)
(*   axis  [n, k, v, x, at, tm] k: kind; x: <<[a, v]>>; tm: what a time axis   *)
(*         denotes (as in TimeAx)                                              *)
EXTENDS TimeAx, Rat, TLC
F(b, c) == IF b THEN <<>> ELSE <<c>>
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Sel(s, p(_)) == SelectSeq(s, p)
Named(s, n) == SelectSeq(s, LAMBDA r : r.n = n)
Has1(s, n) == Named(s, n) # <<>>
Get1(s, n) == Named(s, n)[1]
AttOf(at, k) == SelectSeq(at, LAMBDA r : r.k = k)
HasAtt(at, k) == AttOf(at, k) # <<>>
AttV(at, k) == AttOf(at, k)[1].v
AttIs(at, k, t) == HasAtt(at, k) /\ AttOf(at, k)[1].t = t
Txt(at, k, low) == IF AttIs(at, k, "s") THEN AttV(at, k)[IF low THEN 2 ELSE 1] ELSE ""
Without(at, ks) == SelectSeq(at, LAMBDA r : ~ (r.k \in ks))
CFK == {"axis", "units", "positive", "calendar", "standard_name", "ancillary_variables", "formula_terms"}
PACKK == {"FillValue", "_FillValue", "missing_value", "scale_factor", "add_offset"}
\* ---------------------------------------------------------------- reading
Coord(f, d) == SelectSeq(f.vars, LAMBDA v : v.n = d.n /\ v.d = <<d.n>>)
\* text variables are read as text
Name(v) == IF v.b = "" THEN v.n ELSE v.b
Dims(v) == IF v.b = "" THEN v.d ELSE SubSeq(v.d, 1, Len(v.d) - 1)
Vals(v) == IF v.b = "" THEN v.v ELSE v.sv
Words(v) == (IF AttIs(v.at, "coordinates", "w") THEN AttV(v.at, "coordinates") ELSE <<>>)
         \o (IF AttIs(v.at, "ancillary_variables", "w") THEN AttV(v.at, "ancillary_variables") ELSE <<>>)
IsCoord(f, v) == Len(v.d) = 1 /\ v.d[1] = v.n
CAL(c) == CASE c \in {"standard", "gregorian", "proleptic_gregorian", ""} -> "std" [] c \in {"365_day", "noleap", "365day"} -> "365"
            [] c \in {"360_day", "360day"} -> "360" [] c = "none" -> "yearless" [] OTHER -> "?"
\* what kinds of axis the conventions point to
Signals(st, un, at) ==
       (IF st = "latitude" \/ un = "degrees_north" THEN {"Lat"} ELSE {})
  \cup (IF st = "longitude" \/ un = "degrees_east" THEN {"Lon"} ELSE {})
  \cup (IF st = "air_pressure" \/ un \in {"hPa", "mbar"} THEN {"Pres"} ELSE {})
  \cup (IF st = "atmosphere_hybrid_sigma_pressure_coordinate" THEN {"Hybrid"} ELSE {})
  \cup (IF st = "station" THEN {"Station"} ELSE {})
  \cup (IF AttIs(at, "units", "q") THEN {"time"} ELSE {})
Letter(at) == CASE Txt(at, "axis", FALSE) = "X" -> "XAxis" [] Txt(at, "axis", FALSE) = "Y" -> "YAxis" [] Txt(at, "axis", FALSE) = "Z" -> "ZAxis"
                [] Txt(at, "axis", FALSE) = "T" -> "TAxis" [] OTHER -> ""
Offs(x, u) == LET n == x[1] d == x[2] w == n \div d r == n % d IN
  CASE u = "days" -> <<w, (r * 86400) \div d>>
    [] u = "hours" -> Carry(w \div 24, (w % 24) * 3600 + (r * 3600) \div d)
    [] u = "minutes" -> Carry(w \div 1440, (w % 1440) * 60 + (r * 60) \div d)
    [] u = "seconds" -> Carry(w \div 86400, w % 86400)
NoY(c, s, ds) == c # "yearless" /\ s[1] = 0 /\ \A i \in 1..Len(ds) : ds[i][1] = 0
Tm(c, q, vs) ==
  LET s0 == IF c = "yearless" THEN [q.d EXCEPT ![1] = NOF, ![2] = NOF] ELSE q.d
      off == [i \in 1..Len(vs) |-> Offs(vs[i], q.r)]
      ds == [i \in 1..Len(vs) |-> LET t == DateOf(c, AddI(Serial(c, q.d), off[i])) IN IF c = "yearless" THEN [t EXCEPT ![1] = NOF, ![2] = NOF] ELSE t]
      no == NoY(c, q.d, ds)
      ks == IF c = "yearless" THEN <<3, 4, 5, 6>> ELSE IF no THEN <<2, 3, 4, 5, 6>> ELSE <<1, 2, 3, 4, 5, 6>>
  IN [cal |-> c, keys |-> ks, d |-> [i \in 1..Len(ds) |-> Only(ds[i], SetOf(ks))], start |-> IF no THEN [s0 EXCEPT ![1] = NOF] ELSE s0, unit |-> q.r, back |-> off]
Up(n) == [i \in 1..n |-> I(i - 1)]
AxisOf(f, d, plain) ==
  LET c == Coord(f, d)
      has == c # <<>>
      at == IF has THEN c[1].at ELSE <<>>
      v == IF has THEN c[1].v ELSE Up(d.l)
      bare == [n |-> d.n, k |-> IF has THEN "NamedAxis" ELSE "DummyAxis", v |-> v, x |-> <<>>, at |-> at, tm |-> <<>>]
      st == IF HasAtt(at, "standard_name") THEN Txt(at, "standard_name", TRUE) ELSE IF HasAtt(at, "long_name") THEN Txt(at, "long_name", TRUE) ELSE d.lo
      sg == Signals(st, Txt(at, "units", FALSE), at)
      anc == IF AttIs(at, "ancillary_variables", "w") THEN AttV(at, "ancillary_variables") ELSE <<>>
      xa == [i \in 1..Len(anc) |-> [a |-> anc[i].s, v |-> LET w == SelectSeq(f.vars, LAMBDA r : Name(r) = anc[i].w) IN IF w = <<>> THEN <<>> ELSE Vals(w[1]), w |-> anc[i].w]]
      q == AttV(at, "units")[1]
      cal == CAL(Txt(at, "calendar", FALSE))
      refs == UNION {SetOf(Words(f.vars[i])) : i \in {j \in 1..Len(f.vars) : d.n \in SetOf(Dims(f.vars[j]))}}
      deps == SelectSeq(f.vars, LAMBDA r : Dims(r) = <<d.n>> /\ ~IsCoord(f, r) /\ \E w \in refs : w.w = Name(r))
      xd == [i \in 1..Len(deps) |-> [a |-> Name(deps[i]), v |-> Vals(deps[i]), w |-> Name(deps[i])]]
      x == xa \o SelectSeq(xd, LAMBDA r : \A i \in 1..Len(xa) : xa[i].w # r.w)
      role == \E i \in 1..Len(deps) : Txt(deps[i].at, "cf_role", FALSE) = "timeseries_id"
      base == IF Letter(at) # "" THEN Letter(at) ELSE IF has THEN "NamedAxis" ELSE IF role THEN "Station" ELSE IF x # <<>> THEN "NonCoordinateAxis" ELSE "DummyAxis"
      ab == {x[i].a : i \in 1..Len(x)}
      k == IF sg = {} THEN base ELSE IF Cardinality(sg) > 1 THEN "?" ELSE CHOOSE s \in sg : TRUE
  IN IF plain THEN bare
     ELSE IF k = "time" THEN (IF cal = "?" THEN [bare EXCEPT !.k = "?"] ELSE [bare EXCEPT !.k = "time", !.x = xa, !.tm = Tm(cal, q, v)])
     \* (arrays found by way of the variables: whether they make the axis a hybrid one is not said)
     ELSE IF k = "Hybrid" /\ {"A", "B"} \subseteq ab /\ ~ ({"A", "B"} \subseteq {xa[i].a : i \in 1..Len(xa)}) THEN [bare EXCEPT !.k = "?"]
     ELSE IF k = "Hybrid" /\ ~ ({"A", "B"} \subseteq ab) THEN [bare EXCEPT !.k = base, !.x = x]
     ELSE IF k \in {"Station", "NonCoordinateAxis"} THEN [bare EXCEPT !.k = k, !.v = Up(d.l), !.x = x \o IF (has /\ ~ (d.n \in ab)) \/ x = <<>> THEN <<[a |-> d.n, v |-> v, w |-> ""]>> ELSE <<>>]
     ELSE [bare EXCEPT !.k = IF k # "?" /\ ~has /\ k # "NonCoordinateAxis" /\ k # "DummyAxis" THEN "?" ELSE k, !.x = x]
Fills(at) == Cat([i \in 1..3 |-> LET k == <<"FillValue", "_FillValue", "missing_value">>[i] IN IF HasAtt(at, k) THEN <<AttV(at, k)[1]>> ELSE <<>>])
Packed(at) == HasAtt(at, "scale_factor") \/ HasAtt(at, "add_offset")
Decoded(at) == Packed(at) \/ Fills(at) # <<>>
Unpack(at, x) ==
  LET fl == Fills(at)
      sc == IF HasAtt(at, "scale_factor") THEN RMul(x, AttV(at, "scale_factor")[1]) ELSE x
  IN IF \E i \in 1..Len(fl) : fl[i] = x THEN NaN ELSE IF HasAtt(at, "add_offset") THEN RAdd(sc, AttV(at, "add_offset")[1]) ELSE sc
\* several different fill values in one variable: which one counts is not said
OpenFill(at) == \E i, j \in 1..Len(Fills(at)) : Fills(at)[i] # Fills(at)[j]
VarOf(v, plain) ==
  IF plain THEN [n |-> v.n, t |-> v.t, ax |-> v.d, v |-> v.v, at |-> v.at]
  ELSE IF v.b # "" THEN [n |-> v.b, t |-> "text", ax |-> Dims(v), v |-> v.sv, at |-> v.at]
  ELSE [n |-> v.n, t |-> IF Decoded(v.at) THEN "float" ELSE v.t, ax |-> v.d,
        v |-> IF ~Decoded(v.at) THEN v.v ELSE IF OpenFill(v.at) THEN [i \in 1..Len(v.v) |-> Open] ELSE [i \in 1..Len(v.v) |-> Unpack(v.at, v.v[i])], at |-> Without(v.at, PACKK)]
\* options: cf, ov <<[n, t, v]>>, dt <<[n, w, ax]>>, vl <<name>>, nm <<[o, n]>>
Over(f, ov) == [f EXCEPT !.vars = [i \in 1..Len(f.vars) |-> IF Has1(ov, f.vars[i].n) THEN [f.vars[i] EXCEPT !.v = Get1(ov, f.vars[i].n).v, !.t = Get1(ov, f.vars[i].n).t] ELSE f.vars[i]]]
Ren(n, nm) == LET h == SelectSeq(nm, LAMBDA r : r.o = n) IN IF h = <<>> THEN n ELSE h[1].n
Decode(f0, o) ==
  LET f == Over(f0, o.ov)
      ax0 == [i \in 1..Len(f.dims) |-> AxisOf(f, f.dims[i], ~o.cf \/ Has1(o.dt, f.dims[i].n))]
      taken == UNION {{ax0[i].x[j].w : j \in 1..Len(ax0[i].x)} : i \in 1..Len(ax0)}
      vs0 == SelectSeq(f.vars, LAMBDA v : ~IsCoord(f, v) /\ ~ (o.cf /\ Name(v) \in taken))
      vs1 == [i \in 1..Len(vs0) |-> VarOf(vs0[i], ~o.cf)]
      \* kinds given by the caller
      ax1 == [i \in 1..Len(ax0) |-> IF Has1(o.dt, ax0[i].n) THEN LET g == Get1(o.dt, ax0[i].n).ax IN [g EXCEPT !.at = IF Get1(o.dt, ax0[i].n).w = "cls" THEN ax0[i].at ELSE g.at,
                 !.v = IF g.v = <<>> THEN ax0[i].v ELSE g.v] ELSE ax0[i]]
      vs2 == IF o.vl = <<>> THEN vs1 ELSE SelectSeq(vs1, LAMBDA v : v.n \in SetOf(o.vl))
      used == UNION {SetOf(vs2[i].ax) : i \in 1..Len(vs2)}
      An(n) == Ren(IF Has1(o.dt, n) THEN Get1(o.dt, n).ax.n ELSE n, o.nm)
      keep == SelectSeq([i \in 1..Len(ax1) |-> i], LAMBDA i : ax0[i].n \in used)
      ax2 == [i \in 1..Len(keep) |-> ax1[keep[i]]]
  IN [ax |-> [i \in 1..Len(ax2) |-> [ax2[i] EXCEPT !.n = Ren(@, o.nm)]],
      vars |-> [i \in 1..Len(vs2) |-> [vs2[i] EXCEPT !.n = Ren(@, o.nm), !.ax = [j \in 1..Len(@) |-> An(@[j])]]],
      at |-> f.at]
\* ---------------------------------------------------------------- writing
T1(s) == <<s, s>>
S1(k, s) == [k |-> k, t |-> "s", v |-> T1(s)]
\* kinds without a form of their own in a file come back as the nearest kind that has one
KConv(k) == CASE k \in {"Axis", "Index", "Coef", "Freq"} -> "NamedAxis" [] k = "Height" -> "ZAxis" [] k = "SpectralM" -> "YAxis" [] k = "SpectralN" -> "XAxis" [] OTHER -> k
AxLetter(k) == CASE k \in {"XAxis", "Lon", "SpectralN"} -> <<S1("axis", "X")>> [] k \in {"YAxis", "Lat", "SpectralM"} -> <<S1("axis", "Y")>>
                 [] k \in {"ZAxis", "Height", "Hybrid", "Pres"} -> <<S1("axis", "Z")>> [] k \in {"TAxis", "time"} -> <<S1("axis", "T")>> [] OTHER -> <<>>
AxAtts(a) ==
  CASE a.k = "Lat" -> <<S1("standard_name", "latitude"), S1("units", "degrees_north")>>
    [] a.k = "Lon" -> <<S1("standard_name", "longitude"), S1("units", "degrees_east")>>
    [] a.k = "Pres" -> <<S1("standard_name", "air_pressure"), S1("units", "hPa"), S1("positive", "down")>>
    [] a.k = "Hybrid" -> <<S1("standard_name", "atmosphere_hybrid_sigma_pressure_coordinate")>>
    [] a.k = "time" -> <<S1("standard_name", "time"), [k |-> "units", t |-> "q", v |-> <<[r |-> a.tm.unit, d |-> Fill(a.tm.start, D0)]>>],
                         S1("calendar", CASE BaseCal(a.tm.cal) = "std" -> "standard" [] BaseCal(a.tm.cal) = "365" -> "365_day" [] a.tm.cal = "360" -> "360_day" [] OTHER -> "none")>>
    [] OTHER -> <<>>
Loose(k) == k \in {"Station", "NonCoordinateAxis"}
\* the numbers of a time axis, in its unit (only where they are whole)
TmV(tm) == [i \in 1..Len(tm.back) |-> LET b == tm.back[i] IN
  CASE tm.unit = "days" -> Q(b[1] * 8 + b[2] \div 10800, 8) [] tm.unit = "hours" -> I(b[1] * 24 + b[2] \div 3600)
    [] tm.unit = "minutes" -> I(b[1] * 1440 + b[2] \div 60) [] tm.unit = "seconds" -> I(b[1] * 86400 + b[2])]
AuxName(a, x) == IF Loose(a.k) THEN x ELSE a.n \o "_" \o x
IsTxt(x) == x.txt
AuxVar(a, x) ==
  LET st == IF Loose(a.k) THEN (CASE x.a = "lat" -> <<S1("standard_name", "latitude"), S1("units", "degrees_north")>> [] x.a = "lon" -> <<S1("standard_name", "longitude"), S1("units", "degrees_east")>>
                 [] x.a = "station" -> <<S1("cf_role", "timeseries_id")>> [] OTHER -> <<>>) ELSE <<>>
  IN IF x.txt THEN [n |-> AuxName(a, x.a) \o "_name", b |-> AuxName(a, x.a), t |-> "bytes8", d |-> <<a.n, x.a \o "_strlen">>, v |-> <<>>, sv |-> x.v, at |-> st]
     ELSE [n |-> AuxName(a, x.a), b |-> "", t |-> "float64", d |-> <<a.n>>, v |-> x.v, sv |-> <<>>, at |-> st]
WordList(k, ws) == IF ws = <<>> THEN <<>> ELSE <<[k |-> k, t |-> "w", v |-> ws]>>
AncList(a) == [i \in 1..Len(a.x) |-> [w |-> AuxName(a, a.x[i].a), s |-> a.x[i].a]]
LatLon(a) == SelectSeq(AncList(a), LAMBDA r : r.s \in {"lat", "lon"})
Others(a) == SelectSeq(AncList(a), LAMBDA r : ~ (r.s \in {"lat", "lon"}))
CoordVar(a) == [n |-> a.n, b |-> "", t |-> "float64", d |-> <<a.n>>, v |-> IF a.k = "time" THEN TmV(a.tm) ELSE a.v, sv |-> <<>>,
                at |-> Without(a.at, {AxAtts(a)[i].k : i \in 1..Len(AxAtts(a))}) \o AxAtts(a) \o AxLetter(a.k) \o WordList("ancillary_variables", AncList(a))]
Encode(ds) ==
  LET txt == Cat([i \in 1..Len(ds.ax) |-> Cat([j \in 1..Len(ds.ax[i].x) |-> IF ds.ax[i].x[j].txt THEN <<[n |-> ds.ax[i].x[j].a \o "_strlen", lo |-> "", l |-> 3]>> ELSE <<>>])])
      dims == [i \in 1..Len(ds.ax) |-> [n |-> ds.ax[i].n, lo |-> ds.ax[i].n, l |-> Len(ds.ax[i].v)]] \o txt
      cv == Cat([i \in 1..Len(ds.ax) |-> IF Loose(ds.ax[i].k) \/ ds.ax[i].k = "DummyAxis" THEN <<>> ELSE <<CoordVar(ds.ax[i])>>])
      av == Cat([i \in 1..Len(ds.ax) |-> [j \in 1..Len(ds.ax[i].x) |-> AuxVar(ds.ax[i], ds.ax[i].x[j])]])
      vs == [i \in 1..Len(ds.vars) |-> LET v == ds.vars[i]
               lo == SelectSeq(v.ax, LAMBDA n : Loose(Get1(ds.ax, n).k))
               ls == Cat([j \in 1..Len(lo) |-> LatLon(Get1(ds.ax, lo[j]))])
               os == Cat([j \in 1..Len(lo) |-> Others(Get1(ds.ax, lo[j]))])
             IN [n |-> v.n, b |-> "", t |-> v.t, d |-> v.ax, v |-> v.v, sv |-> <<>>, at |-> v.at \o WordList("coordinates", ls) \o WordList("ancillary_variables", os)]]
  IN [dims |-> dims, vars |-> vs \o av \o cv, at |-> ds.at \o <<S1("Conventions", "CF-1.0")>>]
\* ---------------------------------------------------------------- what a dataset read back must be
AttEq(a, b) == a.k = b.k /\ a.t = b.t /\ a.v = b.v
AttSame(at, bt, free) ==
  /\ \A i \in 1..Len(at) : at[i].k \in free \/ \E j \in 1..Len(bt) : AttEq(bt[j], at[i])
  /\ \A j \in 1..Len(bt) : bt[j].k \in free \/ \E i \in 1..Len(at) : AttEq(bt[j], at[i])
Pair(x) == [a |-> x.a, v |-> x.v]
AuxSame(x, y) == {Pair(x[i]) : i \in 1..Len(x)} = {Pair(y[i]) : i \in 1..Len(y)}
AuxIn(x, y) == {Pair(x[i]) : i \in 1..Len(x)} \subseteq {Pair(y[i]) : i \in 1..Len(y)}
InstOf(tm) == [i \in 1..Len(tm.d) |-> Inst(tm.cal, tm.d[i])]
TmRound(a, b) ==
     F(b.cal = BaseCal(a.cal), "wrong-calendar")
  \o (IF b.cal # BaseCal(a.cal) THEN <<>> ELSE
        F(InstOf(a) = InstOf(b), "wrong-dates") \o F(b.unit = a.unit, "wrong-unit") \o F(Sane(b), "numbers-do-not-denote-the-dates")
        \o F(IsS(a.cal) \/ Keys(a) \subseteq Keys(b) \/ (\A i \in 1..Len(a.d) : a.d[i][1] = 0), "components-lost")
        \o F(a.cal = "yearless" \/ ((1 \in Keys(a)) <=> (1 \in Keys(b))) \/ (\A i \in 1..Len(a.d) : a.d[i][1] = 0), "year-component"))
GENERIC == {"NamedAxis", "Axis", "XAxis", "YAxis", "ZAxis", "TAxis", "Height", "Index", "Coef", "Freq", "SpectralM", "SpectralN"}
V3T(t) == CASE t \in {"int64", "uint64", "uint32"} -> {"float64"} [] t = "uint8" -> {"int16", "int32"} [] t = "uint16" -> {"int32"} [] OTHER -> {t}
AxisRound(a, b, cf) ==
  IF ~cf THEN F(b.k = "NamedAxis" \/ (a.k = "DummyAxis" /\ b.k = "DummyAxis"), "wrong-kind-of-axis") \o F(a.v = b.v, "coordinates-changed") \o F(AttSame(a.at, b.at, {}), "axis-attributes-changed")
  ELSE IF a.k = "DummyAxis" THEN F(b.k \in {"DummyAxis", "NamedAxis"}, "wrong-kind-of-axis") \o F(b.k = "DummyAxis" \/ a.v = b.v, "coordinates-changed")
  ELSE F(b.k = KConv(a.k), "wrong-kind-of-axis")
       \o (IF b.k # KConv(a.k) THEN <<>> ELSE
             (IF a.k = "time" THEN TmRound(a.tm, b.tm) ELSE F(a.v = b.v, "coordinates-changed"))
             \o F(AuxSame(a.x, b.x), "associated-arrays-changed")
             \o F(Loose(a.k) \/ AttSame(a.at, b.at, IF a.k \in GENERIC THEN CFK \ {"units"} ELSE CFK), "axis-attributes-changed"))
VarRound(s, r, v3, at) ==
     F(r.t = s.t \/ (v3 /\ r.t \in V3T(s.t)), "wrong-type") \o F(s.ax = r.ax, "axes-of-variable")
  \o F(s.v = r.v, "values-changed") \o F(AttSame(s.at, r.at, at), "attributes-changed")
Round(ds, res, cf, v3) ==
  IF res.k = "err" THEN <<"raised-error">>
  ELSE F({ds.vars[i].n : i \in 1..Len(ds.vars)} = {res.vars[i].n : i \in 1..Len(res.vars)} /\ Len(ds.vars) = Len(res.vars), "wrong-set-of-variables")
    \o F({ds.ax[i].n : i \in 1..Len(ds.ax)} = {res.ax[i].n : i \in 1..Len(res.ax)} /\ Len(ds.ax) = Len(res.ax), "wrong-set-of-axes")
    \o Cat([i \in 1..Len(ds.vars) |-> IF Has1(res.vars, ds.vars[i].n) THEN VarRound(ds.vars[i], Get1(res.vars, ds.vars[i].n), v3,
              IF \E j \in 1..Len(ds.vars[i].ax) : Loose(Get1(ds.ax, ds.vars[i].ax[j]).k) THEN {"coordinates", "ancillary_variables"} ELSE {}) ELSE <<>>])
    \o Cat([i \in 1..Len(ds.ax) |-> IF Has1(res.ax, ds.ax[i].n) THEN AxisRound(ds.ax[i], Get1(res.ax, ds.ax[i].n), cf) ELSE <<>>])
    \o F(AttSame(ds.at, res.at, IF cf THEN {"Conventions", "featureType"} ELSE {}), "global-attributes-changed")
\* ---------------------------------------------------------------- comparing what was opened
NumOK(w, o) == \/ w = o \/ IsOpen(w)
\* text against numbers is never compared: arrays say what they are
AuxOf(x) == {[a |-> x[i].a, v |-> x[i].v] : i \in 1..Len(x)}
AxisBad2(w, o, unit) ==
  IF w.k = "?" THEN <<>>
  ELSE IF w.k # o.k THEN <<"wrong-kind-of-axis">>
  ELSE (IF w.k = "time" THEN
          (IF w.tm = <<>> THEN <<>> ELSE
             F(o.tm.cal = w.tm.cal, "wrong-calendar") \o F(o.tm.d = w.tm.d /\ Keys(o.tm) = Keys(w.tm), "wrong-dates") \o F(Sane(o.tm), "numbers-do-not-denote-the-dates")
             \o F(~unit \/ o.tm.unit = w.tm.unit, "wrong-unit"))
        ELSE F(w.v = o.v, "wrong-coordinates"))
     \o F(AuxSame(w.x, IF w.k # "Lat" \/ \E i \in 1..Len(w.x) : w.x[i].a = "weights" THEN o.x ELSE SelectSeq(o.x, LAMBDA r : r.a # "weights")), "wrong-associated-arrays")
     \o F(AttSame(w.at, o.at, CFK), "wrong-axis-attributes")
AxisBad(w, o) == AxisBad2(w, o, TRUE)
VarBad(w, o) ==
     F(w.t = o.t \/ (w.t = "float" /\ o.t \in {"float32", "float64"}) \/ w.t = "text", "wrong-type")
  \o F(w.ax = o.ax, "wrong-axes-of-variable")
  \o F(Len(w.v) = Len(o.v) /\ \A i \in 1..Len(w.v) : NumOK(w.v[i], o.v[i]), "wrong-values")
  \o F(AttSame(w.at, o.at, PACKK), "wrong-attributes")
NamesOf(s) == {s[i].n : i \in 1..Len(s)}
\* the cells of variable e.n (of the file last described) at the requested positions
RECURSIVE Flat(_, _, _)
Flat(sh, rq, base) == IF sh = <<>> THEN <<base>> ELSE Cat([i \in 1..Len(rq[1]) |-> Flat(Tail(sh), Tail(rq), base * sh[1] + rq[1][i])])
\* names that files cannot hold: every other character becomes _, and _ goes before a leading digit
DIG == {"0","1","2","3","4","5","6","7","8","9"}
LETTER == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
           "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
RECURSIVE Glue(_)
Glue(c) == IF c = <<>> THEN "" ELSE (IF Head(c) \in LETTER \cup DIG THEN Head(c) ELSE "_") \o Glue(Tail(c))
FixName(c) == IF c[1] \in DIG THEN "_" \o Glue(c) ELSE Glue(c)
=============================================================================
