------------------------------- MODULE MC_TAx -------------------------------
(* Two axes as they are written - numbers, unit, start date - rewritten,       *)
(* reversed, thinned and shifted in every order.  What they denote moves only  *)
(* with the points, never with the writing, and matching by date components    *)
(* is matching by instant.                                                     *)
EXTENDS TimeAx, Json, TLC, Sample
CONSTANTS ORIGINS, NUMS, UNITS, CALS
VARIABLES cal, a, b, da, n     \* da: the dates a was made to denote
vars == <<cal, a, b, da, n>>
OQ == {<<1999, 12, 31, 0, 0, 0>>, <<2000, 2, 28, 18, 0, 0>>}
OD == {<<1999, 12, 31, 0, 0, 0>>, <<2000, 2, 28, 18, 0, 0>>, <<2001, 3, 1, 12, 0, 0>>, <<1900, 2, 28, 0, 0, 0>>}
NQ == {<<0, 1>>, <<1, 2>>, <<59, 60, 61>>}
ND == {<<0, 1>>, <<1, 2>>, <<59, 60, 61>>, <<365, 366>>, <<2, 0>>, <<-1, 24>>}
Off(u, x) == Carry((x * USEC(u)) \div 86400, (x * USEC(u)) % 86400)
Denote(c, r) == [i \in 1..Len(r.v) |-> DateOf(c, AddI(Serial(c, r.s), Off(r.u, r.v[i])))]
Rec(c, r, ks) == LET d == Denote(c, r) IN [cal |-> c, keys |-> ks, d |-> [i \in 1..Len(d) |-> Only(d[i], SetOf(ks))]]
All6 == <<1, 2, 3, 4, 5, 6>>
Init == /\ cal \in CALS /\ a \in [v : NUMS, u : UNITS, s : ORIGINS] /\ b \in [v : NUMS, u : UNITS, s : ORIGINS] /\ da = Denote(cal, a) /\ n = 0
\* write a's instants with unit u from origin s
Secs(p) == p[1] * 86400 + p[2]       \* offsets here stay small
Rewrite(u, s) ==
  LET q == [i \in 1..Len(a.v) |-> SubI(AddI(Serial(cal, a.s), Off(a.u, a.v[i])), Serial(cal, s))]
  IN /\ \A i \in 1..Len(q) : q[i][1] \in -20000..20000 /\ Secs(q[i]) % USEC(u) = 0
     /\ a' = [v |-> [i \in 1..Len(q) |-> Secs(q[i]) \div USEC(u)], u |-> u, s |-> s] /\ da' = da
Rev(x) == [i \in 1..Len(x) |-> x[Len(x) + 1 - i]]
Next == /\ n < 2 /\ n' = n + 1 /\ UNCHANGED <<cal, b>>
        /\ \/ \E u \in UNITS, s \in ORIGINS : Rewrite(u, s)
           \/ Len(a.v) > 1 /\ a' = [a EXCEPT !.v = Tail(@)] /\ da' = Tail(da)
           \/ a' = [a EXCEPT !.v = Rev(@)] /\ da' = Rev(da)
Denotes == Denote(cal, a) = da
T(r, i) == AddI(Serial(cal, r.s), Off(r.u, r.v[i]))
ByInstant == \A i \in 1..Len(a.v), j \in 1..Len(b.v) : T(a, i) = T(b, j) <=> (<<i, j>> \in CommonPairs(Rec(cal, a, All6), Rec(cal, b, All6)))
\* instants and numbers written from them
WrittenBack == Written(cal, da, a.s) = [i \in 1..Len(a.v) |-> Off(a.u, a.v[i])]
\* fewer components match more
Coarser == \A k \in 1..6 : LET ks == SelectSeq(All6, LAMBDA x : x # k) IN
             CommonPairs(Rec(cal, a, All6), Rec(cal, b, All6)) \subseteq CommonPairs(Rec(cal, a, ks), Rec(cal, b, ks))
\* an axis maps on itself identically, and maps compose
MapId == LET r == Rec(cal, a, All6) IN MapOK(r, r, [i \in 1..Len(a.v) |-> i])
Sym == LET p == Rec(cal, a, All6)  q == Rec(cal, b, All6) IN
         (Covers(p, q) /\ Covers(q, p)) <=> (SetOf(p.d) = SetOf(q.d))
Times == Steps(0, <<0, 21600>>, <<1, 0>>, FALSE, FALSE) = <<<<0, 0>>, <<0, 21600>>, <<0, 43200>>, <<0, 64800>>>> /\ Len(Steps(0, <<-1, 0>>, <<-3, 0>>, TRUE, TRUE)) = 4
Emit == Emits(25, [cal |-> cal, a |-> [d |-> Denote(cal, a), u |-> a.u, s |-> a.s], b |-> [d |-> Denote(cal, b), u |-> b.u, s |-> b.s]]) => PrintT("@G" \o ToJson([cal |-> cal, a |-> [d |-> Denote(cal, a), u |-> a.u, s |-> a.s], b |-> [d |-> Denote(cal, b), u |-> b.u, s |-> b.s]]))
=============================================================================
