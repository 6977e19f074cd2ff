------------------------------- MODULE MC_Comp -------------------------------
(* Every choice of events and windows on a short axis.                         *)
EXTENDS LComp, Json, Sample
CONSTANTS N, LMAX, OMAX
VARIABLES n, ev, w
Z(k, q) == [k |-> k, n |-> k, v |-> [j \in 1..q |-> SC * (j * j)], x |-> <<>>]
X == <<Z("Lon", 2), Z("Pres", n), Z("Lat", 2)>>
A == Build(X, LAMBDA m : I(100 * m[1] + 10 * m[2] + m[3]))
Seqs == UNION {[1..k -> 0..(n - 1)] : k \in 1..2}
Init == n \in 2..N /\ ev = <<>> /\ w = <<>>
Pick == ev = <<>> /\ ev' \in {s \in Seqs : \A j \in 1..(Len(s) - 1) : s[j] < s[j + 1]} /\ UNCHANGED <<n, w>>
Size == ev # <<>> /\ w = <<>> /\ \E one \in BOOLEAN : \E ln \in [1..Len(ev) -> 1..LMAX], of \in [1..Len(ev) -> -1..OMAX] :
         /\ one => \A j \in 1..Len(ev) : ln[j] = ln[1]
         /\ w' = [one |-> one, len |-> ln, off |-> of]
         /\ UNCHANGED <<n, ev>>
Next == Pick \/ Size
Done == w # <<>>
C == Composite(A, 2, ev, w, OffsetAx(w, "Offset", SC, <<>>))
Emit == (Done /\ Emits(12, [n |-> n, ev |-> ev, w |-> w])) => PrintT("@G" \o ToJson([n |-> n, ev |-> ev, w |-> w]))
\* the number of values each event has: the positions of its window on the axis
RECURSIVE CntTo(_, _, _)
CntTo(j, lo, hi) == IF lo >= hi THEN 0 ELSE (IF 0 <= ev[j] + lo /\ ev[j] + lo < n THEN 1 ELSE 0) + CntTo(j, lo + 1, hi)
Has(j) == Cardinality({k \in 0..(OffLen(w) - 1) : ~IsNaN(At(C, <<0, j - 1, k, 0>>))})
Counts == Done => \A j \in 1..Len(ev) :
            LET hi == IF w.one THEN (IF w.len[j] - w.off[j] < OffLo(w) + OffLen(w) THEN w.len[j] - w.off[j] ELSE OffLo(w) + OffLen(w)) ELSE w.len[j] - w.off[j]
            IN Has(j) = CntTo(j, -w.off[j], hi)
\* offset 0 is the event itself
Centre == Done => \A j \in 1..Len(ev) : (InWindow(w, j, 0) /\ OffLo(w) <= 0 /\ 0 < OffLo(w) + OffLen(w)) => At(C, <<1, j - 1, -OffLo(w), 1>>) = I(100 + 10 * ev[j] + 1)
\* every value is a value of the source on the same other coordinates
Own == Done => \A p \in 1..Len(C.dat) : IsNaN(C.dat[p]) \/ (C.dat[p] \in Range(A.dat) /\ (C.dat[p][1] \div 100) = ((p - 1) \div (C.sh[2] * C.sh[3] * C.sh[4])) /\ (C.dat[p][1] % 10) = ((p - 1) % C.sh[4]))
\* flattening keeps the order of the elements when the pair is innermost, and all of them
Flat == Done => LET Fl == Flatten(C, 3, Z("XAxis", C.sh[2] * C.sh[3])) IN Fl.dat = C.dat /\ Fl.sh = <<2, C.sh[2] * C.sh[3], 2>>
\* windows of one point about every position restore the source
Identity == (w = <<>> /\ ev = <<>>) =>
   LET W1 == [one |-> TRUE, len |-> [j \in 1..n |-> 1], off |-> [j \in 1..n |-> 0]]
       R == Composite(A, 2, [j \in 1..n |-> j - 1], W1, OffsetAx(W1, "Offset", SC, <<>>))
   IN Flatten(R, 3, X[2]) = A
=============================================================================
