-------------------------------- MODULE LView --------------------------------
(* The evaluation machine: how a request for a set of positions is cut into     *)
(* pieces.  A box is a sequence (one per axis) of sequences of positions.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE VProd(_)
VProd(s) == IF s = <<>> THEN 1 ELSE Head(s) * VProd(Tail(s))
VMin(a, b) == IF a < b THEN a ELSE b
VRange(s) == {s[i] : i \in DOMAIN s}
\* consecutive runs of at most n of the positions ix
RECURSIVE Runs(_, _)
Runs(ix, n) == IF ix = <<>> THEN <<>> ELSE <<SubSeq(ix, 1, VMin(n, Len(ix)))>> \o Runs(SubSeq(ix, VMin(n, Len(ix)) + 1, Len(ix)), n)
\* number of positions of each axis taken at once: last axis first, preserved axes whole
RECURSIVE Budget(_, _, _, _)
Budget(sh, P, max, i) ==      \* remaining budget after axes > i
  IF i = Len(sh) THEN LET pres == VProd([j \in 1..Len(sh) |-> IF j \in P THEN sh[j] ELSE 1])
                      IN IF max < pres THEN 1 ELSE max \div pres
  ELSE IF (i + 1) \in P THEN Budget(sh, P, max, i + 1)
  ELSE LET b == Budget(sh, P, max, i + 1) IN b \div VMin(b, IF sh[i + 1] = 0 THEN 1 ELSE sh[i + 1])
Count(sh, P, max, i) == IF i \in P THEN sh[i] ELSE VMin(Budget(sh, P, max, i), sh[i])
RECURSIVE Product(_)
Product(lists) == IF lists = <<>> THEN <<<<>>>>
                  ELSE LET t == Product(Tail(lists)) h == Head(lists)
                       IN [k \in 1..(Len(h) * Len(t)) |-> <<h[(k - 1) \div Len(t) + 1]>> \o t[((k - 1) % Len(t)) + 1]]
LoopMem(ixs, P, max) ==
  LET sh == [i \in 1..Len(ixs) |-> Len(ixs[i])]
  IN Product([i \in 1..Len(ixs) |-> IF i \in P THEN <<ixs[i]>> ELSE Runs(ixs[i], Count(sh, P, max, i))])
BoxSize(b) == VProd([i \in 1..Len(b) |-> Len(b[i])])
\* the points of a box, as multi-indices
BoxPts(b) == {m \in [1..Len(b) -> UNION {VRange(b[i]) : i \in 1..Len(b)}] : \A i \in 1..Len(b) : m[i] \in VRange(b[i])}
\* maximal runs of consecutive integers
RECURSIVE Contig(_)
Contig(ix) == IF ix = <<>> THEN <<>>
              ELSE LET r == CHOOSE k \in 1..Len(ix) : /\ \A j \in 2..k : ix[j] = ix[j - 1] + 1
                                                      /\ (k < Len(ix) => ix[k + 1] # ix[k] + 1)
                   IN <<SubSeq(ix, 1, r)>> \o Contig(SubSeq(ix, r + 1, Len(ix)))
LoopContiguous(ixs) == Product([i \in 1..Len(ixs) |-> Contig(ixs[i])])
=============================================================================
