------------------------------ MODULE MC_Store ------------------------------
(* Every small dataset survives being written and read; reading with options   *)
(* is the default reading, restricted and renamed.                             *)
EXTENDS Store, Json, Sample
CONSTANTS NA, NV, Tms
VARIABLES ds, ph
vars == <<ds, ph>>
X1(a, v) == [a |-> a, v |-> v, txt |-> FALSE]
XT(a, v) == [a |-> a, v |-> v, txt |-> TRUE]
R2(a, b) == <<I(a), I(b)>>
A0(n, k, v, x, at) == [n |-> n, k |-> k, v |-> v, x |-> x, at |-> at, tm |-> <<>>]
MkTm(c, ks, s, u, b) ==
  LET d == [i \in 1..Len(b) |-> LET t == DateOf(c, AddI(Serial(c, Fill(s, D0)), b[i])) IN Only(t, SetOf(ks))]
  IN [cal |-> c, keys |-> ks, d |-> d, start |-> s, unit |-> u, back |-> b]
TmPool == {MkTm("std", <<1, 2, 3, 4, 5, 6>>, <<2000, 2, 28, 12, 0, 0>>, "days", <<<<0, 0>>, <<1, 43200>>>>),
  MkTm("365", <<2, 3, 4, 5, 6>>, <<NOF, 2, 28, 0, 0, 0>>, "hours", <<<<0, 0>>, <<1, 0>>>>),
  MkTm("360", <<1, 2, 3, 4, 5, 6>>, <<-3, 2, 30, 0, 0, 0>>, "minutes", <<<<0, 0>>, <<0, 60>>>>),
  MkTm("yearless", <<3, 4, 5, 6>>, <<NOF, NOF, -2, 0, 0, 0>>, "days", <<<<0, 0>>, <<5, 0>>>>),
  MkTm("std", <<1, 2, 3, 4, 5, 6>>, <<0, 12, 31, 0, 0, 0>>, "seconds", <<<<0, 0>>, <<1, 1>>>>)}
T0(n, tm, x) == [n |-> n, k |-> "time", v |-> [i \in 1..Len(tm.d) |-> I(i)], x |-> x, at |-> <<S1("long_name", "when")>>, tm |-> tm]
AxPool ==
  {A0("lat", "Lat", R2(-30, 30), <<X1("weights", R2(1, 2))>>, <<>>), A0("foo", "Lat", R2(5, 10), <<X1("weights", R2(1, 1))>>, <<S1("long_name", "x")>>),
   A0("lon", "Lon", R2(0, 90), <<>>, <<>>), A0("pres", "Pres", R2(1000, 500), <<>>, <<>>), A0("p2", "Pres", R2(10, 1), <<X1("weights", R2(3, 4))>>, <<>>),
   A0("eta", "Hybrid", R2(1, 2), <<X1("A", R2(1, 2)), X1("B", R2(3, 4))>>, <<>>), A0("xx", "XAxis", R2(1, 2), <<>>, <<>>), A0("zz", "Height", R2(1, 2), <<>>, <<S1("units", "km")>>),
   A0("nn", "NamedAxis", R2(3, 4), <<>>, <<S1("units", "K")>>), A0("n3", "Index", R2(0, 1), <<X1("weights", R2(5, 6))>>, <<>>), A0("ta", "TAxis", R2(0, 1), <<>>, <<>>),
   A0("dim", "DummyAxis", R2(0, 1), <<>>, <<>>),
   A0("station", "Station", R2(0, 1), <<X1("lat", R2(1, 2)), X1("lon", R2(3, 4)), XT("station", <<"abc", "d">>)>>, <<>>),
   A0("site", "NonCoordinateAxis", R2(0, 1), <<X1("lat", R2(1, 2)), X1("l", R2(3, 4)), XT("site", <<"p", "q">>)>>, <<>>),
   A0("lone", "NonCoordinateAxis", R2(0, 1), <<X1("q", R2(7, 8))>>, <<>>)}
  \cup {T0("time", tm, <<>>) : tm \in TmPool} \cup {T0("t2", tm, <<X1("weights", R2(1, 3))>>) : tm \in TmPool}
\* datasets whose arrays need the same name in the file are not supported
AuxNames(a) == {AuxName(a, a.x[i].a) : i \in 1..Len(a.x)}
OK(as) == \A i, j \in 1..Len(as) : i < j => as[i].n # as[j].n /\ AuxNames(as[i]) \cap (AuxNames(as[j]) \cup {as[j].n}) = {} /\ ~ (as[i].n \in AuxNames(as[j]))
VNames == <<"T", "B", "weights">>
Cells(as, n) == LET RECURSIVE P(_) P(s) == IF s = <<>> THEN 1 ELSE Len(Head(s).v) * P(Tail(s)) IN [i \in 1..P(as) |-> IF i = 2 THEN NaN ELSE I(10 * n + i)]
Pick1(as, S) == SelectSeq(as, LAMBDA a : a.n \in S)
Init == /\ ph = "made"
        /\ \E as \in UNION {[1..k -> AxPool] : k \in 0..NA} : OK(as) /\
           \E nv \in 1..NV : \E sub \in [1..nv -> SUBSET {as[i].n : i \in 1..Len(as)}] : \E sh \in 0..2 :
             /\ \A i \in 1..Len(as) : \E v \in 1..nv : as[i].n \in sub[v]
             /\ LET nm(v) == VNames[((v + sh) % 3) + 1] IN
                /\ \A v \in 1..nv, i \in 1..Len(as) : ~ (nm(v) \in AuxNames(as[i]))
                /\ ds = [k |-> "ok", ax |-> as, vars |-> [v \in 1..nv |-> LET p == Pick1(as, sub[v]) IN
                       [n |-> nm(v), t |-> "float64", ax |-> [i \in 1..Len(p) |-> p[i].n], v |-> Cells(p, v), at |-> <<S1("units", "m")>>]], at |-> <<S1("history", "h")>>]
Opt0 == [cf |-> TRUE, ov |-> <<>>, dt |-> <<>>, vl |-> <<>>, nm |-> <<>>]
File == Encode(ds)
Read(o) == Decode(File, o) @@ [k |-> "ok"]
Next == ph = "made" /\ ph' = "read" /\ UNCHANGED ds
Identity == ph = "read" => Round(ds, Read(Opt0), TRUE, FALSE) = <<>>
\* choosing a variable and renaming it commute with reading
Choosing == ph = "read" => \A i \in 1..Len(ds.vars) : LET v == ds.vars[i]
              r == Read([Opt0 EXCEPT !.vl = <<v.n>>, !.nm = <<[o |-> v.n, n |-> "new"]>>])
              d == [ds EXCEPT !.vars = <<[v EXCEPT !.n = "new"]>>, !.ax = SelectSeq(ds.ax, LAMBDA a : a.n \in SetOf(v.ax))]
            IN Round(d, r, TRUE, FALSE) = <<>>
\* without the conventions nothing is interpreted: the file's own variables and numbers
Raw == ph = "read" => LET r == Read([Opt0 EXCEPT !.cf = FALSE]) IN
         /\ Len(r.vars) + Len(SelectSeq(File.vars, LAMBDA v : IsCoord(File, v))) = Len(File.vars)
         /\ \A i \in 1..Len(r.ax) : r.ax[i].k \in {"NamedAxis", "DummyAxis"} /\ r.ax[i].x = <<>>
Emit == ph = "read" /\ Emits(40, ds) => PrintT("@G" \o ToJson([ds |-> ds, f |-> File]))
=============================================================================
