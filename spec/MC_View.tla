------------------------------- MODULE MC_View -------------------------------
(* The evaluation machine, exhaustively for small requests: a request (any      *)
(* positions, any order, repeats) is made unique, cut into pieces under the    *)
(* size limit with the preserved axes whole, every piece is read in contiguous *)
(* runs, scattered into the result, and duplicates are restored at the end.   *)
EXTENDS LView, Json, SequencesExt, Sample
CONSTANTS Lens, MaxReq
VARIABLES sh, req, P, lim, todo, out, nread
vars == <<sh, req, P, lim, todo, out, nread>>
Uniq(ix) == SetToSortSeq(VRange(ix), <)
Truth(m) == 100 * m[1] + 10 * (IF Len(m) > 1 THEN m[2] ELSE 0) + (IF Len(m) > 2 THEN m[3] ELSE 0)
\* a few request shapes per axis of length n: everything, reversed, repeated, gappy, single, none
Reqs(n) == {<<>>, [i \in 1..n |-> i - 1], [i \in 1..n |-> n - i]} \cup {<<i>> : i \in {0, n - 1}} \cup
           (IF n > 2 THEN {<<0, n - 1>>, <<n - 1, 0, n - 1>>} ELSE {})
Init == /\ \E k \in 1..3 : sh \in [1..k -> Lens]
        /\ req \in {q \in [1..Len(sh) -> UNION {Reqs(n) : n \in Lens}] : \A i \in 1..Len(sh) : q[i] \in Reqs(sh[i])}
        /\ P \in SUBSET (1..Len(sh)) /\ Cardinality(P) <= 1
        /\ lim \in 1..MaxReq
        /\ LET u == [i \in 1..Len(sh) |-> Uniq(req[i])]
           IN todo = (IF \E i \in 1..Len(u) : u[i] = <<>> THEN <<>> ELSE LoopMem(u, P, lim))
        /\ out = <<>> /\ nread = 0
\* read one piece: its contiguous runs cover it exactly once
Step == /\ todo # <<>>
        /\ LET b == Head(todo)
               runs == LoopContiguous(b)
           IN /\ \A m \in BoxPts(b) : Cardinality({j \in 1..Len(runs) : m \in BoxPts(runs[j])}) = 1
              /\ out' = out @@ [m \in BoxPts(b) |-> Truth(m)]
              /\ nread' = nread + BoxSize(b)
        /\ todo' = Tail(todo) /\ UNCHANGED <<sh, req, P, lim>>
Next == Step /\ (todo' = <<>> => (Emits(120, [sh |-> sh, req |-> req, p |-> SetToSeq(P), lim |-> lim]) => PrintT("@G" \o ToJson([sh |-> sh, req |-> req, p |-> SetToSeq(P), lim |-> lim]))))
Pres(b) == VProd([i \in 1..Len(b) |-> IF i \in P THEN Len(b[i]) ELSE 1])
\* every piece fits the limit, unless the preserved axis alone exceeds it; preserved axes are whole
Fits == \A j \in 1..Len(todo) : LET b == todo[j] IN
          /\ BoxSize(b) <= lim \/ BoxSize(b) = Pres(b)
          /\ \A i \in P : b[i] = Uniq(req[i])
          /\ \A i \in 1..Len(b) : b[i] # <<>> /\ \A k \in 2..Len(b[i]) : b[i][k] > b[i][k - 1]
\* at the end every requested element has been read exactly once, and has its own value
Done == todo = <<>> => LET u == [i \in 1..Len(sh) |-> Uniq(req[i])] IN
          /\ nread = BoxSize(u)
          /\ \A m \in BoxPts(u) : m \in DOMAIN out /\ out[m] = Truth(m)
\* the machine never gets stuck before the end
Alive == todo # <<>> => ENABLED Step
==============================================================================
