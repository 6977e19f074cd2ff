------------------------------ MODULE MC_Dset ------------------------------
(* Datasets over a few variables whose names and axes clash, and every         *)
(* sequence of a few operations on them.                                       *)
EXTENDS Dset, Json, Sample
CONSTANTS Most, Ops, SampleOf
VARIABLES d, last, steps
vars == <<d, last, steps>>
A(n, v) == [k |-> "Lat", n |-> n, v |-> v, x |-> <<>>]
B(n, v) == [k |-> "NamedAxis", n |-> n, v |-> v, x |-> <<>>]
Axlists == {<<>>, <<A("lat", <<8, 16>>)>>, <<A("lat", <<8, 24>>)>>, <<A("lat01", <<8, 16>>)>>, <<B("lat", <<8, 16>>)>>, <<B("s", <<0, 8>>), A("lat", <<16, 8>>)>>}
Names == {"a", "a01", ""}
Pool == {[n |-> n, t |-> 1, f |-> 1, c |-> 0, at |-> <<>>, ax |-> x] : n \in Names, x \in Axlists}
Tagged(s) == [i \in 1..Len(s) |-> [s[i] EXCEPT !.t = i]]
Lists(n) == LET L[i \in 0..n] == IF i = 0 THEN {<<>>} ELSE {Append(s, v) : s \in L[i - 1], v \in Pool} IN L[n]
Init == \E n \in 0..Most : \E s \in Lists(n) : d = Resolve(Tagged(s)) /\ last = [op |-> "new", of |-> Tagged(s), want |-> Tagged(s)] /\ steps = 0
Do(op, w) == d' = Resolve(w) /\ last' = [op |-> op, of |-> d, want |-> w] /\ steps' = steps + 1
Names2 == {d[i].n : i \in 1..Len(d)}
Next == /\ steps < Ops
        /\ \/ \E n \in Names2 : Do("remove", Without(d, {n}))
           \/ \E n \in Names2 : \E m \in {"a", "a01", "b"} : Do("rename", RenameTo(d, <<<<n, m>>>>))
           \/ \E v \in Pool : Len(d) <= Most /\ Do("add", Append(d, [v EXCEPT !.t = 7]))
           \/ \E n \in Names2 : \E v \in Pool : Do("replace", Swap(d, <<<<n, [v EXCEPT !.t = 8]>>>>))
           \/ \E s \in {[key |-> "lat", how |-> "v", lo |-> 8, hi |-> 16], [key |-> "lat01", how |-> "v", lo |-> 0, hi |-> 8], [key |-> "s", how |-> "i", lo |-> 0, hi |-> 1]} :
                Do("sub", SelectSeq([i \in 1..Len(d) |-> Subset(d[i], s)], LAMBDA v : ~NoPoints(v)))
           \/ Do("sorted", [i \in 1..Len(d) |-> Sorted2(d[i])])
           \/ Do("squeeze", [i \in 1..Len(d) |-> Squeezed(d[i])])
           \/ Do("rename_axes", [i \in 1..Len(d) |-> RenamedAx(d[i], "lat", "s")])
Sound == Unique(d) /\ OneAxis(d)
\* an operation changes what it is asked to change
Kept2 == Faithful(last.want, d)
\* removing what was added gives what was there, up to names that had to be changed
Stable == Resolve(d) = d
Emit == last.op # "new" /\ Emits(SampleOf, [o |-> last, d |-> d]) => PrintT("@G" \o ToJson([of |-> last.of, op |-> last.op, want |-> last.want, res |-> d]))

=============================================================================
