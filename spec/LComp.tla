-------------------------------- MODULE LComp --------------------------------
(* Composites (windows about events along one axis) and flattening of a pair   *)
(* of adjacent axes.                                                           *)
EXTENDS LInterp

IMax(s) == CHOOSE x \in Range(s) : \A y \in Range(s) : y <= x
\* the windows: evlen and evoff per event; when one length is given (one) the
\* offset axis has that length, otherwise it spans the widest extent
OffLo(w) == -IMax(w.off)
OffLen(w) == IF w.one THEN w.len[1] ELSE IMax([j \in 1..Len(w.len) |-> w.len[j] - w.off[j] - OffLo(w)])
InWindow(w, j, k) == -w.off[j] <= k /\ k < w.len[j] - w.off[j]
EventAx(ev) == [k |-> "Event", n |-> "event", v |-> [j \in 1..Len(ev) |-> SC * j], x |-> <<[a |-> "indices", v |-> [j \in 1..Len(ev) |-> I(ev[j])]]>>]
\* ty: "Offset" counts positions; "Yearless" gives times, in steps of st
OffsetAx(w, ty, st, x) == [k |-> ty, n |-> IF ty = "Offset" THEN "offset" ELSE "time", v |-> [j \in 1..OffLen(w) |-> st * (OffLo(w) + j - 1)], x |-> x]
\* ev: 0-based positions of the events along axis i
Composite(A, i, ev, w, off) ==
  Build(SubSeq(A.ax, 1, i - 1) \o <<EventAx(ev), off>> \o SubSeq(A.ax, i + 1, Len(A.ax)),
        LAMBDA m : LET k == OffLo(w) + m[i + 1]
                       p == ev[m[i] + 1] + k
                   IN IF InWindow(w, m[i] + 1, k) /\ 0 <= p /\ p < A.sh[i]
                      THEN At(A, SubSeq(m, 1, i - 1) \o <<p>> \o SubSeq(m, i + 2, Len(m)))
                      ELSE NaN)
\* i: the inner of the two axes
Flatten(A, i, nax) ==
  Build(SubSeq(A.ax, 1, i - 2) \o <<nax>> \o SubSeq(A.ax, i + 1, Len(A.ax)),
        LAMBDA m : At(A, SubSeq(m, 1, i - 2) \o <<m[i - 1] \div A.sh[i], m[i - 1] % A.sh[i]>> \o SubSeq(m, i, Len(m))))
\* the axis made when none is given: of the kind of the outer one; its points are
\* numbered when the inner coordinates would not tell them apart
FlatAx(A, i, unit) ==
  LET v == [p \in 1..(A.sh[i - 1] * A.sh[i]) |-> unit[(p - 1) \div A.sh[i] + 1] + A.ax[i].v[((p - 1) % A.sh[i]) + 1]]
  IN [k |-> A.ax[i - 1].k, n |-> A.ax[i - 1].n, x |-> <<>>,
      v |-> IF Cardinality(Range(v)) < Len(v) THEN [p \in 1..Len(v) |-> SC * (p - 1)] ELSE v]
Step1(v) == LET S == {Abs(v[j + 1] - v[j]) : j \in 1..(Len(v) - 1)} IN CHOOSE d \in S : \A q \in S : d <= q
CompExp(e, A) ==
  IF e.op = "composite" THEN
    IF Len(e.w.len) # Len(e.ev) \/ Len(e.w.off) # Len(e.ev) THEN Err
    ELSE LET tm == IsKind(A.ax[e.i].k, "Time")
             ox == IF e.obs.k = "arr" /\ tm /\ Len(e.obs.ax) > e.i THEN e.obs.ax[e.i + 1].x ELSE <<>>
         IN Arr(Composite(A, e.i, e.ev, e.w, OffsetAx(e.w, IF tm THEN "Yearless" ELSE "Offset", IF tm THEN Step1(A.ax[e.i].v) ELSE SC, ox)))
  ELSE IF e.i < 2 \/ e.i > Len(A.ax) THEN Err
  ELSE IF e.given THEN (IF Len(e.nax.v) = A.sh[e.i - 1] * A.sh[e.i] THEN Arr(Flatten(A, e.i, e.nax)) ELSE Err)
  ELSE Arr(Flatten(A, e.i, FlatAx(A, e.i, IF e.comp THEN [j \in 1..A.sh[e.i - 1] |-> A.ax[e.i - 1].v[j]] ELSE [j \in 1..A.sh[e.i - 1] |-> SC * (j - 1) * A.sh[e.i]])))
=============================================================================
