-------------------------------- MODULE Dset --------------------------------
(* Datasets as namespaces.                                                     *)
(*   axis     = [k |-> class, n |-> name, v |-> coordinates, x |-> arrays]      *)
(*   variable = [n |-> name, t |-> tag, f |-> factor, c |-> shift, ax |-> axes, *)
(*               at |-> attributes]       t, f and c determine its values (Val) *)
(*   dataset  = [vars |-> sequence of variables, at |-> attributes]             *)
(* Every operation yields a list of wanted members; Resolve gives them names:  *)
(* what is alone under its name keeps it, what is not gets a name that nothing *)
(* else has.                                                                   *)
EXTENDS LAxis
\* values: a function of the variable and of the coordinates alone
Weight(a) == CASE IsKind(a.k, "YAxis") -> 1 [] IsKind(a.k, "XAxis") -> 7 [] IsKind(a.k, "ZAxis") -> 31 [] IsKind(a.k, "TAxis") -> 3 [] OTHER -> 101
Val(v, m) == LET F[i \in 0..Len(v.ax)] == IF i = 0 THEN v.t * 1000000 + v.c ELSE F[i - 1] + Weight(v.ax[i]) * v.ax[i].v[m[i] + 1] IN v.f * F[Len(v.ax)]
Dat(v) == Build(v.ax, LAMBDA m : Val(v, m)).dat

Prefix(p, s) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Want(n) == IF n = "" THEN "var" ELSE n
AtNames(at) == {e[1] : e \in Range(at)}
\* attributes on which all agree (sequences of <<name, value>>, in order of name)
AtCommon(s) == SelectSeq(s[1], LAMBDA e : \A j \in 2..Len(s) : e \in Range(s[j]))

AxesOf(vs) == CatAll([i \in 1..Len(vs) |-> vs[i].ax])
\* do the axes of that name all agree
Alone(vs, n) == LET A == SelectSeq(AxesOf(vs), LAMBDA a : a.n = n) IN \A i \in 1..Len(A) : AxisEq(A[1], A[i])
----------------------------------------------------------------------------
(* one resolution of names; the trace specification accepts any that obeys the rule *)
RECURSIVE Fresh(_, _)
Fresh(n, S) == IF n \in S THEN Fresh(n \o "x", S) ELSE n
Two(i) == IF i < 10 THEN "0" \o ToString(i) ELSE ToString(i)
ResolveAx(vs) ==
  LET A == AxesOf(vs)
      N == {A[i].n : i \in 1..Len(A)}
      \* the families of a name, by their first member
      firsts(n) == SelectSeq([i \in 1..Len(A) |-> i], LAMBDA i : A[i].n = n /\ ~\E j \in 1..(i - 1) : A[j].n = n /\ AxisEq(A[j], A[i]))
      fam(a) == LET f == firsts(a.n) IN CHOOSE q \in 1..Len(f) : AxisEq(A[f[q]], a)
      new(a) == LET f == firsts(a.n) IN IF Len(f) = 1 THEN A[f[1]] ELSE [A[f[fam(a)]] EXCEPT !.n = Fresh(a.n \o Two(fam(a)), N)]
  IN [i \in 1..Len(vs) |-> [vs[i] EXCEPT !.ax = [j \in 1..Len(@) |-> new(@[j])]]]
ResolveVar(vs) ==
  LET w == [i \in 1..Len(vs) |-> Want(vs[i].n)]
      S == Range(w)
      nth(i) == Cardinality({j \in 1..i : w[j] = w[i]})
  IN [i \in 1..Len(vs) |-> [vs[i] EXCEPT !.n = IF Cardinality({j \in 1..Len(w) : w[j] = w[i]}) = 1 THEN w[i] ELSE Fresh(w[i] \o Two(nth(i)), S)]]
Resolve(vs) == TLCEval(ResolveVar(ResolveAx(vs)))
----------------------------------------------------------------------------
(* the operations: wanted members *)
RenameTo(d, mp) == [i \in 1..Len(d) |-> LET e == SelectSeq(mp, LAMBDA p : p[1] = d[i].n) IN IF e = <<>> THEN d[i] ELSE [d[i] EXCEPT !.n = e[1][2]]]
Without(d, ns) == SelectSeq(d, LAMBDA v : v.n \notin ns)
Swap(d, mp) == [i \in 1..Len(d) |-> LET e == SelectSeq(mp, LAMBDA p : p[1] = d[i].n) IN IF e = <<>> THEN d[i] ELSE e[1][2]]
HasName(d, n) == \E i \in 1..Len(d) : d[i].n = n
\* does a key of a selection mean that axis
Lower(k) == CASE k = "Lat" -> "lat" [] k = "Lon" -> "lon" [] k = "Pres" -> "pres" [] OTHER -> "-"
Picks(key, a) == a.n = key \/ Lower(a.k) = key
Kept(a, s) == IF s.how = "i" THEN SelectSeq([j \in 1..Len(a.v) |-> j - 1], LAMBDA j : s.lo <= j /\ j < s.hi)
              ELSE SelectSeq([j \in 1..Len(a.v) |-> j - 1], LAMBDA j : s.lo <= a.v[j + 1] /\ a.v[j + 1] <= s.hi)
Subset(v, s) == [v EXCEPT !.ax = [i \in 1..Len(@) |-> IF Picks(s.key, @[i]) THEN AxTake(@[i], Kept(@[i], s)) ELSE @[i]]]
NoPoints(v) == \E i \in 1..Len(v.ax) : v.ax[i].v = <<>>
Order(a) == IF IsKind(a.k, "ZAxis") /\ a.k = "Pres" THEN -1 ELSE 1
SortIx(a) == LET n == Len(a.v) IN SortSeq([j \in 1..n |-> j - 1], LAMBDA i, j : IF Order(a) = 1 THEN a.v[i + 1] < a.v[j + 1] ELSE a.v[i + 1] > a.v[j + 1])
Sorted2(v) == [v EXCEPT !.ax = [i \in 1..Len(@) |-> AxTake(@[i], SortIx(@[i]))]]
SumOf(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE F[i - 1] + s[i] IN F[Len(s)]
\* an axis squeezed away leaves its share of the values behind
Squeezed(v) == [v EXCEPT !.ax = SelectSeq(@, LAMBDA a : Len(a.v) # 1),
                         !.c = @ + SumOf([i \in 1..Len(v.ax) |-> IF Len(v.ax[i].v) = 1 THEN Weight(v.ax[i]) * v.ax[i].v[1] ELSE 0])]
RenamedAx(v, key, new) == [v EXCEPT !.ax = [i \in 1..Len(@) |-> IF Picks(key, @[i]) THEN [@[i] EXCEPT !.n = new] ELSE @[i]]]
\* segments of one variable, joined along the axis on which they differ
Differ(a, b) == {q \in 1..Len(a.ax) : a.ax[q].v # b.ax[q].v}
Joined(ss) == LET D == Differ(ss[1], ss[2]) q == CHOOSE x \in D : TRUE
              IN [ss[1] EXCEPT !.at = AtCommon([i \in 1..Len(ss) |-> ss[i].at]),
                               !.ax = [@ EXCEPT ![q] = [@ EXCEPT !.v = CatAll([i \in 1..Len(ss) |-> ss[i].ax[q].v]),
                                                                    !.x = [j \in 1..Len(@) |-> [@[j] EXCEPT !.v = CatAll([i \in 1..Len(ss) |-> ss[i].ax[q].x[j].v])]]]]]
ConcatOf(ds) ==
  LET all == CatAll(ds)
      firsts == SelectSeq([i \in 1..Len(all) |-> i], LAMBDA i : ~\E j \in 1..(i - 1) : all[j].n = all[i].n)
      segs(n) == SelectSeq(all, LAMBDA v : v.n = n)
  IN [i \in 1..Len(firsts) |-> LET g == segs(all[firsts[i]].n) IN IF Len(g) = 1 THEN g[1] ELSE Joined(g)]
----------------------------------------------------------------------------
(* what holds of every dataset *)
Unique(vs) == \A i, j \in 1..Len(vs) : i # j => vs[i].n # vs[j].n
OneAxis(vs) == LET A == AxesOf(vs) IN \A i, j \in 1..Len(A) : A[i].n = A[j].n => A[i] = A[j]
Faithful(vs, d) ==
  /\ Len(d) = Len(vs)
  /\ \A i \in 1..Len(vs) :
       /\ d[i].t = vs[i].t /\ d[i].f = vs[i].f /\ d[i].c = vs[i].c /\ d[i].at = vs[i].at
       /\ Prefix(Want(vs[i].n), d[i].n)
       /\ (~\E j \in 1..Len(vs) : j # i /\ Want(vs[j].n) = Want(vs[i].n)) => d[i].n = Want(vs[i].n)
       /\ \A q \in 1..Len(vs[i].ax) : /\ Prefix(vs[i].ax[q].n, d[i].ax[q].n) /\ d[i].ax[q].v = vs[i].ax[q].v
                                      /\ Alone(vs, vs[i].ax[q].n) => d[i].ax[q].n = vs[i].ax[q].n
=============================================================================
