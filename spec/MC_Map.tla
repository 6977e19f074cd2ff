------------------------------- MODULE MC_Map -------------------------------
(* The matching kernel: both coordinate lists are sorted, then one pass walks  *)
(* through them together, moving to the closest point and accepting it when it *)
(* lies within the relative tolerance.  Coordinates are integers around a      *)
(* magnitude M, the tolerance is the one derived from the spacing.  The walk   *)
(* is correct for every pair of small axes: it finds exactly the equal points. *)
EXTENDS LAxis, Json, SequencesExt, Sample
VARIABLES a, b, M, ai, bi, out
Base == 64                          \* 1 / default relative tolerance
Seqs(n) == [1..n -> 0..4]
Dst(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
As == {s \in UNION {Seqs(n) : n \in 1..3} : Dst(s)} \cup {<<1, 1>>, <<2, 2, 3>>, <<0, 0, 4>>}
Sort(s) == SortSeq([i \in DOMAIN s |-> <<s[i], i>>], LAMBDA x, y : x[1] < y[1])
\* tolerance test |x - y| <= rtol |y|: rtol = min(1/Base, 1/2 of a power of 2 below gap/M)
RECURSIVE Pow2Above(_, _)
Pow2Above(x, p) == IF p >= x THEN p ELSE Pow2Above(x, 2 * p)
Close(s, x, y) == LET g == MinGap(s)
                      q == IF g = 0 THEN Base ELSE LET k == Pow2Above(((M + 4) \div g) + 1, 1) IN IF k >= Base THEN 2 * k ELSE Base
                  IN Abs(x - y) * q <= M + y
Init == /\ a \in As /\ b \in {s \in As : Len(s) <= 2} /\ M \in {0, 10, 60, 300}
        /\ ai = 1 /\ bi = 1 /\ out = [j \in 1..Len(b) |-> 0]
SA == Sort(a)   SB == Sort(b)
Step == /\ bi <= Len(b)
        /\ LET B == SB[bi][1]
               mv == ai < Len(a) /\ (Abs(SA[ai + 1][1] - B) < Abs(SA[ai][1] - B) \/ (SA[ai + 1][1] = SA[ai][1] /\ SA[ai][1] < B))
           IN IF mv THEN ai' = ai + 1 /\ UNCHANGED <<bi, out>>
              ELSE /\ bi' = bi + 1 /\ UNCHANGED ai
                   /\ out' = IF Close(a, SA[ai][1], B) THEN [out EXCEPT ![SB[bi][2]] = SA[ai][2]] ELSE out
        /\ UNCHANGED <<a, b, M>>
Next == Step /\ (bi' > Len(b) => (Emits(30, [a |-> a, b |-> b]) => PrintT("@G" \o ToJson([a |-> a, b |-> b]))))
AX(s) == [k |-> "Lat", n |-> "lat", v |-> s, x |-> <<>>]
Right == bi > Len(b) =>
           MapOk(AX(a), AX(b), SelectSeq([j \in 1..Len(b) |-> out[j] - 1], LAMBDA x : x >= 0), M + 4 >= Base)
=============================================================================
