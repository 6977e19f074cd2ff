------------------------------- MODULE MC_Fun -------------------------------
(* Exhaustive check of operand alignment: every pair of operands over two      *)
(* kinds of axes, each absent, whole, a subset, permuted or only partly        *)
(* overlapping, in either axis order.                                         *)
EXTENDS LRed, Json, Sample
VARIABLES a, b
Lats == {<<8, 16, 24>>, <<24, 8, 16>>, <<16, 24>>, <<8>>, <<24, 32>>}
Lons == {<<8, 16>>, <<16>>, <<16, 8>>}
Lt(v) == [k |-> "Lat", n |-> "lat", v |-> v, x |-> <<>>]
Yx(v) == [k |-> "YAxis", n |-> "yaxis", v |-> v, x |-> <<>>]
Ln(v) == [k |-> "NamedAxis", n |-> "foo", v |-> v, x |-> <<>>]
Ls == {<<Lt(v)>> : v \in Lats} \cup {<<Yx(<<16, 8>>)>>, <<>>}
Ns == {<<Ln(v)>> : v \in Lons} \cup {<<>>}
AxLists == {l \o n : l \in Ls, n \in Ns} \cup {n \o l : l \in Ls, n \in Ns}
Val(axs, s) == Build(axs, LAMBDA m : I(s + (IF Len(m) > 0 THEN axs[1].v[m[1] + 1] \div 8 ELSE 0) * (IF Len(m) > 0 /\ axs[1].n # "foo" THEN 10 ELSE 1)
                                         + (IF Len(m) > 1 THEN (axs[2].v[m[2] + 1] \div 8) * (IF axs[2].n # "foo" THEN 10 ELSE 1) ELSE 0)))
Init == a = <<>> /\ b = <<>>
Next == /\ a = <<>> /\ b = <<>>
        /\ a' \in {<<x>> : x \in AxLists} /\ b' \in {<<x>> : x \in AxLists}
        /\ (Emits(2, [a |-> a'[1], b |-> b'[1]]) => PrintT("@G" \o ToJson([a |-> a'[1], b |-> b'[1]])))
Ready == a # <<>>
A == Val(a[1], 100)
B == Val(b[1], 200)
Ops(x, y) == <<[h |-> TRUE, a |-> x, c |-> Zero], [h |-> TRUE, a |-> y, c |-> Zero]>>
Sum(x, y) == Ufunc(Ops(x, y), LAMBDA v : FN("+", v), <<>>)
Holds(x, y) == UfuncOk(Ops(x, y))
\* commutative; rejected symmetrically; no axis lost or duplicated
Commutes == Ready => (Holds(A, B) <=> Holds(B, A)) /\
              (Holds(A, B) => LET s == Sum(A, B) t == Sum(B, A)
                              IN s = Align(t, s.ax) \/ s.ax # Align(t, s.ax).ax)
Axes == (Ready /\ Holds(A, B)) => LET s == Sum(A, B)
          IN /\ \A i \in 1..Len(s.ax) : \A x \in Range(A.ax) \cup Range(B.ax) : Mappable(x, s.ax[i]) => CSet(s.ax[i]) \subseteq CSet(x)
             /\ \A x \in Range(A.ax) \cup Range(B.ax) : \E i \in 1..Len(s.ax) : Mappable(x, s.ax[i])
\* the order in which an operand stores its axes does not matter
OrderFree == (Ready /\ Holds(A, B) /\ Len(A.ax) = 2) =>
   LET s == Sum(A, B) t == Align(Sum(Transpose(A, <<2, 1>>), B), s.ax) IN s = t
=============================================================================
