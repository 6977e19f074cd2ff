------------------------------ MODULE MC_Concat ------------------------------
(* Cutting an axis into pieces in every possible way and concatenating them,   *)
(* then reading every increasing request from the result piece by piece.      *)
EXTENDS LRed, Json
VARIABLES cut, req, out, k
N == 4
Ax1 == [k |-> "Lon", n |-> "lon", v |-> <<16, 8>>, x |-> <<>>]
Ax2 == [k |-> "Lat", n |-> "lat", v |-> <<24, 8, 40, 16>>, x |-> <<[a |-> "weights", v |-> <<I(1), I(2), I(3), I(4)>>]>>]
A0 == Build(<<Ax1, Ax2>>, LAMBDA m : I(100 * m[1] + 10 * m[2]))
PosOfPiece(c, p) == SelectSeq([j \in 1..N |-> j - 1], LAMBDA j : c[j + 1] = p)
NP(c) == Cardinality(Range(c))
Pieces(c) == [p \in 1..NP(c) |-> TakeAll(A0, <<<<0, 1>>, PosOfPiece(c, p)>>)]
Cuts == {c \in [1..N -> 1..3] : Range(c) = 1..Cardinality(Range(c))}
Whole(c) == IF NP(c) = 1 THEN A0 ELSE Concat(Pieces(c), 2)
Init == /\ cut \in Cuts /\ req \in (SUBSET (0..(N - 1))) \ {{}} /\ out = <<>> /\ k = 1
\* the reading loop: visit the pieces in order, take from each the requested points it holds
ReqIx == SelectSeq([j \in 1..N |-> j - 1], LAMBDA j : j \in req)
ReqCoords == Range(Take(Whole(cut).ax[2].v, ReqIx))
Visit == /\ k <= NP(cut)
         /\ LET P == Pieces(cut)[k]
                sl == SelectSeq([j \in 1..P.sh[2] |-> j - 1], LAMBDA j : P.ax[2].v[j + 1] \in ReqCoords)
            IN out' = IF sl = <<>> THEN out ELSE Append(out, TakeAll(P, <<<<0, 1>>, sl>>))
         /\ k' = k + 1 /\ UNCHANGED <<cut, req>>
         /\ (k' > NP(cut) => PrintT("@G" \o ToJson([ax |-> A0.ax, cut |-> cut, req |-> ReqIx])))
Next == Visit
ReadsRight == k > NP(cut) => LET want == TakeAll(Whole(cut), <<<<0, 1>>, ReqIx>>)
                                 got == IF Len(out) = 1 THEN out[1] ELSE Concat(out, 2)
                             IN got = want
Pts(a) == {<<a.ax[1].v[m[1] + 1], a.ax[2].v[m[2] + 1], At(a, m)>> : m \in {q \in (0..1) \X (0..3) : q[2] < a.sh[2]}}
EachOnce == Whole(cut).sh = A0.sh /\ Pts(Whole(cut)) = Pts(A0)
Consecutive == (\A i, j \in 1..N : i < j => cut[i] <= cut[j]) => Whole(cut) = A0
=============================================================================
