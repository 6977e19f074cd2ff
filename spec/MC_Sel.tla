------------------------------- MODULE MC_Sel -------------------------------
(* Exhaustive check of the keyword-selection semantics on a small grid: every  *)
(* sequence of up to two conditions, applied together.  The state carries the *)
(* conditions; the invariants relate joint, one-at-a-time and complementary   *)
(* selection.  Behaviours are printed for replay on the real code.            *)
EXTENDS LOps, Json, Sample
VARIABLES cs
Lt == [k |-> "Lat", n |-> "lat", v |-> <<8, 20, 4>>, x |-> <<[a |-> "weights", v |-> <<I(1), Q(1, 2), I(2)>>]>>]
Fo == [k |-> "NamedAxis", n |-> "foo", v |-> <<16, 8>>, x |-> <<>>]
A0 == Build(<<Lt, Fo>>, LAMBDA m : I(10 * m[1] + m[2] - 7))
C(key, i, l, n, m, s, sc, v) == [key |-> key, i |-> i, l |-> l, n |-> n, m |-> m, s |-> s, sc |-> sc, v |-> v, fl |-> TRUE]
B == BOOLEAN
V1(x) == << <<x>> >>
V2(x, y) == << <<x>>, <<y>> >>
Values == { <<FALSE, FALSE, TRUE, V1(8)>>, <<FALSE, FALSE, TRUE, V1(15)>>, <<FALSE, FALSE, FALSE, V2(9, 1)>>,
            <<FALSE, FALSE, FALSE, V2(8, 20)>>, <<FALSE, FALSE, FALSE, V2(50, 60)>>, <<FALSE, TRUE, FALSE, V2(8, 30)>>,
            <<TRUE, FALSE, TRUE, V1(-1)>>, <<TRUE, FALSE, FALSE, V2(0, -1)>>, <<TRUE, FALSE, FALSE, << <<>>, <<>>, <<-1>> >> >>,
            <<TRUE, TRUE, FALSE, V2(0, -1)>>, <<TRUE, FALSE, FALSE, V1(1)>> }
Conds == {C(k, u[1], u[2], n, m, s, u[3], u[4]) : k \in {"lat", "foo", "nosuch"}, u \in Values, n \in B, m \in B, s \in {FALSE}}
         \cup {C(k, u[1], u[2], FALSE, FALSE, TRUE, u[3], u[4]) : k \in {"lat", "foo"}, u \in Values}
         \cup {C("weights", u[1], u[2], n, FALSE, FALSE, u[3], u[4]) : u \in Values, n \in B}
Init == cs = <<>>
Next == /\ Len(cs) < 2
        /\ \E c \in Conds : /\ \A j \in 1..Len(cs) : cs[j] # c
                            /\ cs' = Append(cs, c)
                            /\ (Len(cs') = 1 \/ Emits(40, cs')) => PrintT("@G" \o ToJson(cs'))
Plain == SelOk(A0, cs) /\ \A j \in 1..Len(cs) : ~cs[j].m /\ ~cs[j].s
\* joint selection keeps the points satisfying every condition, in source order
Joint == Plain => \A i \in 1..2 : LET S == Sel(A0, cs).ax[i].v
                                  IN S = SelectSeq(A0.ax[i].v, LAMBDA x : \A j \in 1..Len(cs) : AxisOf(A0, cs[j]) # i \/
                                       \E p \in CondSet(A0.ax[i], cs[j]) : A0.ax[i].v[p] = x)
\* the order of the conditions does not matter
Commutes == (Plain /\ Len(cs) = 2) => Sel(A0, cs) = Sel(A0, <<cs[2], cs[1]>>)
\* a condition and its complement partition the axis
Complement == (Plain /\ Len(cs) = 1) => LET c == cs[1] d == [c EXCEPT !.n = ~c.n] i == AxisOf(A0, c)
                                        IN Len(Sel(A0, <<c>>).ax[i].v) + Len(Sel(A0, <<d>>).ax[i].v) = Len(A0.ax[i].v)
\* a value condition that already holds changes nothing
Idempotent == (Plain /\ \A j \in 1..Len(cs) : ~cs[j].i /\ ~cs[j].n) =>
                 LET S == Sel(A0, cs) IN ((\A i \in 1..2 : S.sh[i] > 0) /\ (\A j \in 1..Len(cs) : ~cs[j].sc /\ ~cs[j].l)) => Sel(S, cs) = S
=============================================================================
