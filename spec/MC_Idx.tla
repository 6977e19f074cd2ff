------------------------------- MODULE MC_Idx -------------------------------
(* Exhaustive check of the indexing semantics: every chain of up to Depth index *)
(* expressions over a small array.  State: the current array and, as a ghost, *)
(* the composed positions in the original.  Behaviours are printed for replay. *)
EXTENDS LOps, Json
CONSTANTS N0, Depth
VARIABLES cur, pos, hist

Ax0 == [k |-> "Lat", n |-> "lat", v |-> [i \in 1..N0 |-> 8 * i], x |-> <<[a |-> "weights", v |-> [i \in 1..N0 |-> Q(i, 2)]]>>]
Ax1 == [k |-> "Lon", n |-> "lon", v |-> <<16, 8>>, x |-> <<>>]
A0  == Build(<<Ax0, Ax1>>, LAMBDA m : I(10 * m[1] + m[2]))

Opt(S) == {<<>>} \cup {<<s>> : s \in S}
Exprs == {[t |-> "s", a |-> a, b |-> b, c |-> c] : a \in Opt({-4, -1, 1, 5}), b \in Opt({-2, 0, 2, 9}), c \in Opt({2, -1, -2})}
         \cup {[t |-> "l", ix |-> s] : s \in {<<0>>, <<-1>>, <<0, 0>>, <<1, 0>>, <<-1, 0, -1>>}}
Init == cur = A0 /\ pos = [i \in 1..N0 |-> i - 1] /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E e \in Exprs : /\ ISelOk(cur, <<e>>)
                            /\ cur' = ISel(cur, <<e>>)
                            /\ pos' = Take(pos, Ix(Len(pos), e))
                            /\ hist' = Append(hist, e)
                            /\ (Len(hist') = Depth => PrintT("@G" \o ToJson(hist')))
\* the chain equals the single composed index, and labels travel with data
Composed == cur = TakeAll(A0, <<pos, <<0, 1>>>>)
\* labels determine values: the coordinate of a point gives its value back
Labelled == \A p \in 1..Len(cur.ax[1].v) : \A q \in 1..2 :
              At(cur, <<p - 1, q - 1>>) = At(A0, <<(cur.ax[1].v[p] \div 8) - 1, q - 1>>)
=============================================================================
