-------------------------------- MODULE LArr --------------------------------
(* The abstract machine of labelled arrays: what a pygeode variable denotes.  *)
(*   axis  = [k |-> class, n |-> name, v |-> coordinates (integers, in units of *)
(*            1/SC), x |-> associated arrays, a sequence of [a |-> name,        *)
(*            v |-> rationals]]                                                 *)
(*   array = [ax |-> axes, sh |-> shape, dat |-> row-major rationals]           *)
(* Every operation of the library is defined here as a function on such       *)
(* arrays, element by element; nothing refers to views, requests or pieces.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat

SC == 8
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))

Sh(axs) == [i \in 1..Len(axs) |-> Len(axs[i].v)]
Strides(sh) == [i \in 1..Len(sh) |-> Prod(SubSeq(sh, i + 1, Len(sh)))]
RECURSIVE RavFrom(_, _, _)
RavFrom(sh, mi, i) == IF i > Len(sh) THEN 0 ELSE mi[i] * Prod(SubSeq(sh, i + 1, Len(sh))) + RavFrom(sh, mi, i + 1)
Rav(sh, mi) == RavFrom(sh, mi, 1)

\* array with the given axes whose element at 0-based multi-index m is F(m)
Build(axs, F(_)) ==
  LET sh == Sh(axs)
      st == TLCEval(Strides(sh))
      N  == Prod(sh)
  IN [ax |-> axs, sh |-> sh,
      dat |-> TLCEval([p \in 1..N |-> F([i \in 1..Len(sh) |-> ((p - 1) \div st[i]) % sh[i]])])]
At(a, m) == a.dat[Rav(a.sh, m) + 1]
FromObs(o) == [ax |-> o.ax, sh |-> Sh(o.ax), dat |-> o.dat]

----------------------------------------------------------------------------
(* axes *)

Take(s, ix) == [j \in 1..Len(ix) |-> s[ix[j] + 1]]       \* ix 0-based
AxTake(a, ix) == [a EXCEPT !.v = Take(@, ix),
                           !.x = [j \in 1..Len(@) |-> [@[j] EXCEPT !.v = Take(@, ix)]]]

Chain(k) == CASE k = "Lat" -> <<"Lat", "YAxis", "Axis">>
              [] k = "Lon" -> <<"Lon", "XAxis", "Axis">>
              [] k = "Pres" -> <<"Pres", "ZAxis", "Axis">>
              [] k = "Hybrid" -> <<"Hybrid", "ZAxis", "Axis">>
              [] k = "Height" -> <<"Height", "ZAxis", "Axis">>
              [] k = "Station" -> <<k, "NonCoordinateAxis", "Axis">>
              [] k = "Coef" -> <<k, "Index", "Axis">>
              [] k = "Ensemble" -> <<k, "Index", "Axis">>
              [] k \in {"XAxis", "YAxis", "ZAxis", "TAxis", "NamedAxis", "Index", "NonCoordinateAxis"} -> <<k, "Axis">>
              [] k = "DummyAxis" -> <<k, "NamedAxis", "Axis">>
              [] k \in {"StandardTime", "ModelTime365", "ModelTime360"} -> <<k, "CalendarTime", "Time", "TAxis", "Axis">>
              [] k = "Yearless" -> <<k, "CalendarTime", "Time", "TAxis", "Axis">>
              [] k = "Axis" -> <<"Axis">>
              [] OTHER -> <<k, "Axis">>
IsKind(k, p) == p \in Range(Chain(k))
Related(a, b) == IsKind(a.k, b.k) \/ IsKind(b.k, a.k)
IsNamed(a) == IsKind(a.k, "NamedAxis")
AuxNames(a) == {a.x[j].a : j \in 1..Len(a.x)}
AuxVal(a, nm) == (CHOOSE e \in Range(a.x) : e.a = nm).v
AuxEq(a, b) == AuxNames(a) = AuxNames(b) /\ \A nm \in AuxNames(a) : AuxVal(a, nm) = AuxVal(b, nm)
AxEq(a, b) == /\ Related(a, b)
              /\ (IsNamed(a) \/ IsNamed(b) \/ (a.k = "Axis" /\ b.k = "Axis")) => a.n = b.n
              /\ a.v = b.v
              /\ AuxEq(a, b)

----------------------------------------------------------------------------
(* Python index expressions on one axis of length n -> 0-based positions.     *)
(*  [t |-> "s", a, b, c] slice (each a sequence of length 0 or 1)              *)
(*  [t |-> "i", i]  integer   [t |-> "l", ix]  list   [t |-> "m", m] boolean mask *)

Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
RECURSIVE Walk(_, _, _)
Walk(i, b, c) == IF (c > 0 /\ i < b) \/ (c < 0 /\ i > b) THEN <<i>> \o Walk(i + c, b, c) ELSE <<>>
SliceIx(n, a, b, c) ==
  LET st == IF c = <<>> THEN 1 ELSE c[1]
      lo == IF st > 0 THEN 0 ELSE -1
      hi == IF st > 0 THEN n ELSE n - 1
      Wrap(x) == IF x < 0 THEN x + n ELSE x
      i0 == IF a = <<>> THEN (IF st > 0 THEN 0 ELSE n - 1) ELSE Clip(Wrap(a[1]), lo, hi)
      i1 == IF b = <<>> THEN (IF st > 0 THEN n ELSE -1) ELSE Clip(Wrap(b[1]), lo, hi)
  IN Walk(i0, i1, st)
WrapOk(n, i) == -n <= i /\ i < n
WrapI(n, i) == IF i < 0 THEN i + n ELSE i
RECURSIVE MaskIx(_, _)
MaskIx(m, i) == IF i > Len(m) THEN <<>> ELSE (IF m[i] THEN <<i - 1>> ELSE <<>>) \o MaskIx(m, i + 1)
IxOk(n, e) == CASE e.t = "i" -> WrapOk(n, e.i)
                [] e.t = "l" -> \A j \in 1..Len(e.ix) : WrapOk(n, e.ix[j])
                [] e.t = "m" -> Len(e.m) = n
                [] OTHER -> TRUE
Ix(n, e) == CASE e.t = "s" -> SliceIx(n, e.a, e.b, e.c)
              [] e.t = "i" -> <<WrapI(n, e.i)>>
              [] e.t = "l" -> [j \in 1..Len(e.ix) |-> WrapI(n, e.ix[j])]
              [] e.t = "m" -> MaskIx(e.m, 1)

Full == [t |-> "s", a |-> <<>>, b |-> <<>>, c |-> <<>>]
\* missing trailing index expressions take the whole axis
Pad(es, n) == [i \in 1..n |-> IF i <= Len(es) THEN es[i] ELSE Full]

TakeAll(a, ixs) ==   \* outer indexing by explicit positions on each axis
  LET axs == [i \in 1..Len(a.ax) |-> AxTake(a.ax[i], ixs[i])]
  IN Build(axs, LAMBDA m : At(a, [i \in 1..Len(m) |-> ixs[i][m[i] + 1]]))
ISel(a, es) == LET n == Len(a.ax) p == Pad(es, n)
               IN TakeAll(a, TLCEval([i \in 1..n |-> Ix(a.sh[i], p[i])]))
ISelOk(a, es) == Len(es) <= Len(a.ax) /\ \A i \in 1..Len(es) : IxOk(a.sh[i], es[i])
\* v[...]: as ISel, but axes indexed by an integer are dropped
DropAxes(a, S) ==    \* S: set of (1-based) axes of length one
  LET keep == SelectSeq([i \in 1..Len(a.ax) |-> i], LAMBDA i : i \notin S)
  IN [ax |-> [j \in 1..Len(keep) |-> a.ax[keep[j]]],
      sh |-> [j \in 1..Len(keep) |-> a.sh[keep[j]]], dat |-> a.dat]
IGet(a, es) == LET p == Pad(es, Len(a.ax))
               IN DropAxes(ISel(a, es), {i \in 1..Len(p) : p[i].t = "i"})

----------------------------------------------------------------------------
(* comparison of a specified array with an observed one: failing clauses      *)
AxDiff(e, o) ==
  (IF e.k # o.k THEN <<"axis-kind">> ELSE <<>>) \o
  (IF e.n # o.n THEN <<"axis-name">> ELSE <<>>) \o
  (IF e.v # o.v THEN <<"axis-coordinates">> ELSE <<>>) \o
  (IF ~AuxEq(e, o) THEN <<"axis-associated-arrays">> ELSE <<>>)
RECURSIVE CatAll(_)
CatAll(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o CatAll(Tail(ss))
\* values agree: a specified Open is left open, and a specified number with a large
\* numerator or denominator is beyond what the recording resolves
\* (then a recorded fraction is one that happens to lie within the recording's precision)
RECURSIVE Digits(_, _, _)
Digits(rem, d, k) == IF k = 0 THEN <<>> ELSE <<(rem * 10) \div d>> \o Digits((rem * 10) % d, d, k - 1)
Lead(q) == <<q[1] \div q[2]>> \o Digits(q[1] % q[2], q[2], 6)
Beyond(x) == x[2] > 5040 \/ Abs(x[1]) > 500000
AlmostEq(x, y) == y[2] > 0 /\ x[2] > 0 /\ x[2] < 200000000 /\
  LET a == Lead(x) b == Lead(y)
  IN a = b \/ (Abs(a[1] - b[1]) <= 1 /\ Abs((a[1] - b[1]) * 1000000 + (a[2] - b[2]) * 100000 + (a[3] - b[3]) * 10000 + (a[4] - b[4]) * 1000 + (a[5] - b[5]) * 100 + (a[6] - b[6]) * 10 + (a[7] - b[7])) <= 1 + Abs(a[1]) \div 1000)
ValOk(x, y) == x = y \/ IsOpen(x) \/ (Beyond(x) /\ (y = Open \/ AlmostEq(x, y)))
DatOk(e, o) == e = o \/ (Len(e) = Len(o) /\ \A p \in 1..Len(e) : ValOk(e[p], o[p]))
ArrDiff(e, o) ==
  IF o.k # "arr" THEN <<"raised-error">>
  ELSE IF Len(e.ax) # Len(o.ax) THEN <<"number-of-axes">>
  ELSE LET d == CatAll([i \in 1..Len(e.ax) |-> AxDiff(e.ax[i], o.ax[i])])
       IN IF e.sh # Sh(o.ax) THEN d \o <<"shape">>
          ELSE d \o (IF o.sh # e.sh THEN <<"shape-of-values">> ELSE <<>>)
                 \o (IF ~DatOk(e.dat, o.dat) THEN <<"values">> ELSE <<>>)
\* a bare array of values (no labels)
ValDiff(e, o) ==
  IF o.k # "vals" THEN <<"raised-error">>
  ELSE (IF e.sh # o.sh THEN <<"shape">> ELSE <<>>) \o (IF ~DatOk(e.dat, o.dat) THEN <<"values">> ELSE <<>>)
=============================================================================
