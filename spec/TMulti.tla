------------------------------- MODULE TMulti ------------------------------
(* Trace specification of multi-file datasets: collections of files, how they  *)
(* were opened, and what was read through them.                                *)
EXTENDS Multi, Calendar, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c
F(b, x) == IF b THEN <<>> ELSE <<x>>
NOV == -99999
\* minutes since the base date of the collection
Full(r) == [i \in 1..6 |-> IF r[i] # NOV THEN r[i] ELSE IF i = 3 THEN 1 ELSE 0]
OffGrid == -77777777
Mins(C, r) == LET s == SubI(Serial(C.cal, Full(r)), Serial(C.cal, C.base)) IN IF s[2] % 60 = 0 THEN s[1] * 1440 + s[2] \div 60 ELSE OffGrid
MinsOf(C, rs) == [i \in 1..Len(rs) |-> Mins(C, rs[i])]
VarNo(C, n) == CHOOSE k \in 1..Len(C.vars) : C.vars[k].n = n
Known(C, n) == \E k \in 1..Len(C.vars) : C.vars[k].n = n
Fs(C, n) == LET k == VarNo(C, n) IN [i \in 1..Len(C.files) |-> [d |-> C.files[i].d, t |-> C.files[i].t[k]]]
Has(C, i, n) == C.files[i].t[VarNo(C, n)] # <<>>
Sorted(ts) == \A i \in 2..Len(ts) : ts[i - 1] < ts[i]
PosIn(s, x) == IF \E i \in 1..Len(s) : s[i] = x THEN CHOOSE i \in 1..Len(s) : s[i] = x ELSE 0
\* cells of a variable at a time, over the requested coordinates of its other axes (row-major)
Sizes(o) == [i \in 1..Len(o) |-> Len(o[i].v)]
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Cell(V, row, o, q) ==      \* the q-th cell (from 0) of the block over o
  LET n == Len(o)
      Stride(sz, i) == Prod(SubSeq(sz, i + 1, n))
      at(i) == ((q \div Stride(Sizes(o), i)) % Len(o[i].v)) + 1
      p(i) == PosIn(V.o[i].v, o[i].v[at(i)])
      RECURSIVE Off(_)
      Off(i) == IF i = 0 THEN 0 ELSE Off(i - 1) + (p(i) - 1) * Stride(Sizes(V.o), i)
  IN V.rows[row][Off(n) + 1]
SameAxes(V, o) == Len(o) = Len(V.o) /\ \A i \in 1..Len(o) : o[i].n = V.o[i].n /\ Rng(o[i].v) \subseteq Rng(V.o[i].v)
Right(C, n, ts, o, v) ==
  LET V == C.vars[VarNo(C, n)] w == Prod(Sizes(o))
  IN /\ Len(v) = Len(ts) * w
     /\ \A i \in 1..Len(ts) : LET row == PosIn(C.steps, ts[i]) IN row # 0 /\ \A q \in 1..w : v[(i - 1) * w + q] = Cell(V, row, o, q - 1)
\* ---- opening
Varying(C) == {k \in 1..Len(C.vars) : ~C.vars[k].static}
MultiMust(C) ==   \* nothing stands in the way of open_multi
  LET s == SortSeq([i \in 1..Len(C.files) |-> i], LAMBDA a, b : C.files[a].d < C.files[b].d)
      f == s[1] g == s[Len(s)]
  IN /\ \A i \in 1..Len(C.files) : ~C.files[i].bad
     /\ ~C.mixed
     /\ \A k \in 1..Len(C.vars) : (C.files[f].t[k] # <<>>) => C.files[g].t[k] # <<>> /\ (k \notin Varying(C) \/ Inferable(ByDate(Fs(C, C.vars[k].n))))
     /\ \E k \in Varying(C) : C.files[f].t[k] # <<>>
OpenMulti(C, o) ==
  IF o.k = "err" THEN F(~MultiMust(C), "raised-error")
  ELSE IF ~MultiMust(C) THEN <<>>
  ELSE LET s == o.sets[1] IN
       F(\A k \in Varying(C) : LET fs == ByDate(Fs(C, C.vars[k].n)) IN fs[1].t = <<>> \/ \E j \in 1..Len(s) : s[j].n = C.vars[k].n, "variable-missing")
    \o F(\A j \in 1..Len(s) : Known(C, s[j].n), "unknown-variable")
    \o F(\A j \in 1..Len(s) : (Known(C, s[j].n) /\ ~C.vars[VarNo(C, s[j].n)].static) =>
            LET fs == ByDate(Fs(C, s[j].n)) IN MinsOf(C, s[j].t) = Inferred(fs), "time-axis")
    \o F(\A j \in 1..Len(s) : (Known(C, s[j].n)) => LET V == C.vars[VarNo(C, s[j].n)] IN SameAxes(V, s[j].o) /\ Sizes(s[j].o) = Sizes(V.o), "other-axes")
OpenAll(C, o, sorted) ==
  LET allread == \A i \in 1..Len(C.files) : ~C.files[i].bad
      complete == \A k \in Varying(C) : \A i \in 1..Len(C.files) : C.files[i].t[k] # <<>>
  IN IF o.k = "err" THEN F(~allread \/ ~complete \/ C.turned, "raised-error")
     ELSE LET s == o.sets[1] IN
       F(allread, "unreadable-file-left-out")
    \o F(\A k \in Varying(C) : (\E i \in 1..Len(C.files) : C.files[i].t[k] # <<>>) => \E j \in 1..Len(s) : s[j].n = C.vars[k].n, "variable-missing")
    \o F(\A j \in 1..Len(s) : Known(C, s[j].n), "unknown-variable")
    \o F(\A j \in 1..Len(s) : (Known(C, s[j].n) /\ ~C.vars[VarNo(C, s[j].n)].static) =>
            LET ts == MinsOf(C, s[j].t) fs == Fs(C, s[j].n) IN
            IF sorted THEN Sorted(ts) /\ Rng(ts) = AllSteps(fs) ELSE ts = Chain(fs), "time-axis")
    \o F(\A j \in 1..Len(s) : (Known(C, s[j].n)) => LET V == C.vars[VarNo(C, s[j].n)] IN SameAxes(V, s[j].o) /\ Sizes(s[j].o) = Sizes(V.o), "other-axes")
OpenScan(C, o) ==
  LET allread == \A i \in 1..Len(C.files) : ~C.files[i].bad
  IN IF o.k = "err" THEN F(~allread, "raised-error")
     ELSE F(\A k \in 1..Len(C.vars) : (\E i \in 1..Len(C.files) : C.files[i].t[k] # <<>>) =>
              \E d \in 1..Len(o.sets) : \E j \in 1..Len(o.sets[d]) :
                LET v == o.sets[d][j] V == C.vars[k] IN
                /\ v.n = V.n /\ SameAxes(V, v.o) /\ Sizes(v.o) = Sizes(V.o)
                /\ (V.static \/ AllSteps(Fs(C, V.n)) \subseteq Rng(MinsOf(C, v.t))), "no-dataset-covers-variable")
       \o F(\A d \in 1..Len(o.sets) : \A j \in 1..Len(o.sets[d]) : Known(C, o.sets[d][j].n), "unknown-variable")
       \o F(\A d \in 1..Len(o.sets) : \A j \in 1..Len(o.sets[d]) : LET v == o.sets[d][j] IN
              C.vars[VarNo(C, v.n)].static \/ Rng(MinsOf(C, v.t)) \subseteq AllSteps(Fs(C, v.n)), "times-in-no-file")
\* ---- reading
Ask(C, e) ==
  LET ts == MinsOf(C, e.t) fs == ByDate(Fs(C, e.n))
  IN IF e.obs.k = "err" THEN F(e.how = "multi" /\ ~MustRead(fs, ts), "raised-error")
     ELSE F(Right(C, e.n, ts, e.o, e.obs.v), "value-of-another-time-or-place") \o F(~MustFail(fs, ts), "read-of-missing-data")
Static(C, e) ==
  LET V == C.vars[VarNo(C, e.n)] w == Prod(Sizes(e.o))
  IN IF e.obs.k = "err" THEN F(e.how = "multi" /\ \E i \in 1..Len(C.files) : C.files[i].bad \/ C.files[i].t[VarNo(C, e.n)] = <<>>, "raised-error")
     ELSE F(Len(e.obs.v) % w = 0 /\ \A i \in 1..Len(e.obs.v) : e.obs.v[i] = Cell(V, 1, e.o, (i - 1) % w), "wrong-value")
Check(C, e) ==
  LET ns == {C.vars[k].n : k \in Varying(C)}
      good == /\ \A i \in 1..Len(C.files) : ~C.files[i].bad
              /\ \A n \in ns : LET fs == ByDate(Fs(C, n)) IN \A i \in 1..Len(fs) : fs[i].t # <<>>
              /\ \A n \in ns : LET fs == ByDate(Fs(C, n)) IN Inferable(fs) /\ Sound(fs, Inferred(fs))
  IN IF ~MultiMust(C) \/ (\E k \in 1..Len(C.vars) : C.vars[k].static) THEN <<>> ELSE IF e.obs.k = "err" THEN <<"raised-error">>
     ELSE F(e.obs.ok => good, "fault-not-reported")
       \o F((good /\ ~C.turned /\ \A n \in ns : Steady(Inferred(ByDate(Fs(C, n))))) => e.obs.ok, "fault-reported-of-sound-files")
Bad(C, e) ==
  IF e.op = "begin" THEN <<>> ELSE IF e.obs.k = "hang" THEN <<"does-not-return">>
  ELSE CASE e.op = "open" /\ e.how = "multi" -> OpenMulti(C, e.obs)
         [] e.op = "open" /\ e.how = "all" -> OpenAll(C, e.obs, TRUE)
         [] e.op = "open" /\ e.how = "all0" -> OpenAll(C, e.obs, FALSE)
         [] e.op = "open" /\ e.how = "scan" -> OpenScan(C, e.obs)
         [] e.op = "ask" -> Ask(C, e)
         [] e.op = "static" -> Static(C, e)
         [] e.op = "check" -> Check(C, e)
Init == l = 1 /\ c = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ c' = (IF Trace[l].op = "begin" THEN l ELSE c)
        /\ LET bad == Bad(Trace[c], Trace[l]) IN bad = <<>> \/ PrintT("@@" \o ToJson([line |-> l, clauses |-> bad]))
Spec == Init /\ [][Next]_<<l, c>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
