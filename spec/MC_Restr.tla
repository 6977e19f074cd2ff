------------------------------- MODULE MC_Restr -------------------------------
(* Exhaustive check of restructuring: all sequences of two operations on a     *)
(* three-axis array; the multiset of (coordinates, value) points is conserved. *)
EXTENDS LRed, Json, Sample
VARIABLES cur, ops
Ax1 == [k |-> "Lat", n |-> "lat", v |-> <<16, 8, 24>>, x |-> <<>>]
Ax2 == [k |-> "Pres", n |-> "pres", v |-> <<8, 16>>, x |-> <<>>]
Ax3 == [k |-> "NamedAxis", n |-> "foo", v |-> <<40>>, x |-> <<>>]
A0 == Build(<<Ax1, Ax2, Ax3>>, LAMBDA m : I(100 * m[1] + 10 * m[2] + m[3]))
Init == cur = A0 /\ ops = <<>>
N == Len(cur.ax)
PSeqs == {s \in UNION {[1..k -> 1..N] : k \in 1..N} : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
Emit(o) == (Len(ops') = 2 /\ Emits(6, [ax |-> A0.ax, ops |-> ops'])) => PrintT("@G" \o ToJson([ax |-> A0.ax, ops |-> ops']))
Next == /\ Len(ops) < 2
        /\ \/ \E p \in PSeqs : cur' = Transpose(cur, Perm(N, p)) /\ ops' = Append(ops, [op |-> "transpose", p |-> p])
           \/ \E o \in [1..N -> {9, 0, 1, -1}] : (\E i \in 1..N : o[i] # 9) /\ cur' = SortAll(cur, o) /\ ops' = Append(ops, [op |-> "sort", o |-> o])
           \/ \E S \in SUBSET (1..N) : S # {} /\ cur' = Squeeze(cur, S) /\ ops' = Append(ops, [op |-> "squeeze", s |-> SetSeq(S)])
        /\ Emit(0)
\* every point keeps its coordinates and value
Coord(a, m, nm) == LET S == {i \in 1..Len(a.ax) : a.ax[i].n = nm} IN IF S = {} THEN 40 ELSE a.ax[CHOOSE i \in S : TRUE].v[m[CHOOSE i \in S : TRUE] + 1]
Idx(a) == {m \in [1..Len(a.ax) -> 0..2] : \A i \in 1..Len(a.ax) : m[i] < a.sh[i]}
Points(a) == {<<Coord(a, m, "lat"), Coord(a, m, "pres"), Coord(a, m, "foo"), At(a, m)>> : m \in Idx(a)}
Conserved == Points(cur) = Points(A0)
Sorted == (ops # <<>> /\ ops[Len(ops)].op = "sort") => \A i \in 1..N : LET o == ops[Len(ops)].o[i] IN
            (o = 1 \/ (o = 0 /\ cur.ax[i].k # "Pres")) => \A j \in 1..(cur.sh[i] - 1) : cur.ax[i].v[j] < cur.ax[i].v[j + 1]
\* transposing back restores
Back == \A p \in PSeqs : Len(p) = N => Transpose(Transpose(cur, p), [j \in 1..N |-> CHOOSE i \in 1..N : p[i] = j]) = cur
=============================================================================
