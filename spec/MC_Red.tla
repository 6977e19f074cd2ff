------------------------------- MODULE MC_Red -------------------------------
(* Piecewise accumulation of reductions: whatever the memory limit, adding up  *)
(* the pieces (in order, skipping or propagating missing points) gives the     *)
(* definition of each reduction over the whole of the reduced axes.            *)
EXTENDS LRed, LView, Json, Randomization, Sample
CONSTANTS Shapes, NData
QShapes == {<<2, 2>>, <<2, 1, 3>>}
QN == 40
VARIABLES A, R, max, todo, acc, wt
Vals3 == {NaN, I(2), I(-1)}
K(i) == IF i = 1 THEN "Lat" ELSE IF i = 2 THEN "Lon" ELSE "Pres"
NM(i) == IF i = 1 THEN "lat" ELSE IF i = 2 THEN "lon" ELSE "pres"
AX(sh, i, w) == [k |-> K(i), n |-> NM(i), v |-> [j \in 1..sh[i] |-> 8 * j],
                 x |-> IF w THEN <<[a |-> "weights", v |-> [j \in 1..sh[i] |-> I((j % 2) + 1)]]>> ELSE <<>>]
ArrOf(sh, d, w) == [ax |-> [i \in 1..Len(sh) |-> AX(sh, i, w)], sh |-> sh, dat |-> d]
DataOf(n) == IF NData = 0 THEN [1..n -> Vals3] ELSE RandomSubset(NData, [1..n -> Vals3])
FullBox(a) == [i \in 1..Len(a.sh) |-> [j \in 1..a.sh[i] |-> j - 1]]
Init == \E sh \in Shapes : \E d \in DataOf(Prod(sh)) : \E w \in BOOLEAN :
        /\ A = ArrOf(sh, d, w) /\ wt = w
        /\ R \in SUBSET (1..Len(sh)) \ {{}}
        /\ max \in {1, 2, 3, 5}
        /\ todo = LoopMem(FullBox(A), {}, max)
        /\ acc = [x \in {} |-> <<>>]
\* one accumulator per remaining coordinate: sums and counts, each in a skipping and a propagating form
Key(m) == [i \in 1..Len(A.sh) |-> IF i \in R THEN 0 ELSE m[i]]
Z == [s |-> Zero, ns |-> Zero, n |-> 0, q |-> Zero, nq |-> Zero, w |-> Zero, nw |-> Zero, ws |-> Zero, nws |-> Zero, mn |-> <<>>, nmn |-> <<>>]
W1(m) == IF wt THEN AxisW(A, R, m) ELSE One
\* one call takes in a whole piece at once: piece totals, then added to the accumulator
RECURSIVE Over(_, _)
Over(s, a) == IF s = <<>> THEN a
  ELSE LET m == Head(s) x == At(A, m) w == W1(m) nx == IF IsNaN(x) THEN Zero ELSE x IN
       Over(Tail(s), [s |-> RAdd(a.s, x), ns |-> RAdd(a.ns, nx), n |-> a.n + (IF IsNaN(x) THEN 0 ELSE 1),
                      q |-> RAdd(a.q, RMul(x, x)), nq |-> RAdd(a.nq, RMul(nx, nx)),
                      w |-> RAdd(a.w, w), nw |-> RAdd(a.nw, IF IsNaN(x) THEN Zero ELSE w),
                      ws |-> RAdd(a.ws, RMul(w, x)), nws |-> RAdd(a.nws, RMul(w, nx)),
                      mn |-> IF a.mn = <<>> THEN x ELSE RMin(a.mn, x),
                      nmn |-> IF IsNaN(x) THEN a.nmn ELSE IF a.nmn = <<>> THEN x ELSE RMin(a.nmn, x)])
Merge(a, b) == [s |-> RAdd(a.s, b.s), ns |-> RAdd(a.ns, b.ns), n |-> a.n + b.n, q |-> RAdd(a.q, b.q), nq |-> RAdd(a.nq, b.nq),
                w |-> RAdd(a.w, b.w), nw |-> RAdd(a.nw, b.nw), ws |-> RAdd(a.ws, b.ws), nws |-> RAdd(a.nws, b.nws),
                mn |-> IF a.mn = <<>> THEN b.mn ELSE IF b.mn = <<>> THEN a.mn ELSE RMin(a.mn, b.mn),
                nmn |-> IF a.nmn = <<>> THEN b.nmn ELSE IF b.nmn = <<>> THEN a.nmn ELSE RMin(a.nmn, b.nmn)]
Piece == Head(todo)
Take1 == /\ todo # <<>>
         /\ todo' = Tail(todo)
         /\ LET pts == BoxPts(Piece)
                ks == {Key(m) : m \in pts}
                tot == [k \in ks |-> Over(SetSeq({m \in pts : Key(m) = k}), Z)]
            IN acc' = [k \in DOMAIN acc \cup ks |-> IF k \in ks THEN (IF k \in DOMAIN acc THEN Merge(acc[k], tot[k]) ELSE tot[k]) ELSE acc[k]]
         /\ UNCHANGED <<A, R, max, wt>>
Emit == (todo = <<>> /\ Emits(40, [sh |-> A.sh, dat |-> A.dat, w |-> wt, R |-> SetSeq(R), max |-> max])) => PrintT("@G" \o ToJson([sh |-> A.sh, dat |-> A.dat, w |-> wt, R |-> SetSeq(R), max |-> max]))
Next == Take1 /\ (todo' = <<>> => Emit')
Dv(a, b) == RDiv(a, b)
Final(f, a) ==
  CASE f = "sum" -> a.s [] f = "min" -> a.mn
    [] f = "nansum" -> IF a.n = 0 THEN Open ELSE a.ns
    [] f = "nanmin" -> IF a.n = 0 THEN NaN ELSE a.nmn
    [] f = "mean" -> Dv(a.ws, a.w)
    [] f = "nanmean" -> IF a.n = 0 THEN NaN ELSE Dv(a.nws, a.nw)
    [] f = "variance" -> IF a.w = One THEN NaN ELSE RDiv(RSub(a.q, RDiv(RMul(a.s, a.s), a.w)), RSub(a.w, One))
    [] f = "nanvariance" -> IF a.n < 2 THEN NaN ELSE RDiv(RSub(a.nq, RDiv(RMul(a.ns, a.ns), I(a.n))), RSub(I(a.n), One))
Fs == {"sum", "min", "nansum", "nanmin", "mean", "nanmean", "nanvariance"} \cup (IF wt THEN {} ELSE {"variance"})
Def(f) == RedArr([R |-> SetSeq(R), f |-> f, w |-> IF f \in {"mean", "nanmean"} THEN "default" ELSE "none"], A, A)
KeyOf(m) == LET kp == SelectSeq([i \in 1..Len(A.sh) |-> i], LAMBDA i : i \notin R)
            IN [i \in 1..Len(A.sh) |-> IF i \in R THEN 0 ELSE m[CHOOSE j \in 1..Len(kp) : kp[j] = i]]
Correct == todo = <<>> => \A f \in Fs : LET D == Def(f) IN
   Build(D.ax, LAMBDA m : Final(f, acc[KeyOf(m)])).dat = D.dat
\* the pieces cover the array exactly once and respect the limit
Partition == LET bs == LoopMem(FullBox(A), {}, max) IN
   /\ \A i \in 1..Len(bs) : BoxSize(bs[i]) <= max
   /\ \A i, j \in 1..Len(bs) : i # j => BoxPts(bs[i]) \cap BoxPts(bs[j]) = {}
   /\ UNION {BoxPts(bs[i]) : i \in 1..Len(bs)} = BoxPts(FullBox(A))
PartitionInv == Len(todo) = Len(LoopMem(FullBox(A), {}, max)) => Partition
=============================================================================
