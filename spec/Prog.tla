------------------------------- MODULE Prog -------------------------------
(* Progress of nested computations.  A bar is a share [a, b] of the whole,     *)
(* both ends fractions <<num, den>>; what is reported is the place reached in  *)
(* the whole.  A part gives the i-th of n equal shares (i from 0), a subset    *)
(* the share between L and U hundredths; a report of x hundredths on a bar     *)
(* says that the whole has come to Place(bar, x).                              *)
EXTENDS Integers, Sequences
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(q) == LET g == Gcd(IF q[1] < 0 THEN -q[1] ELSE q[1], q[2]) IN IF g = 0 THEN q ELSE <<q[1] \div g, q[2] \div g>>
QAdd(p, q) == Norm(<<p[1] * q[2] + q[1] * p[2], p[2] * q[2]>>)
QMul(p, q) == Norm(<<p[1] * q[1], p[2] * q[2]>>)
QSub(p, q) == QAdd(p, <<-q[1], q[2]>>)
QLe(p, q) == p[1] * q[2] <= q[1] * p[2]
Whole == [a |-> <<0, 1>>, b |-> <<1, 1>>]
Place(bar, f) == QAdd(bar.a, QMul(QSub(bar.b, bar.a), f))
Share(bar, f, g) == [a |-> Place(bar, f), b |-> Place(bar, g)]
Part(bar, i, n) == Share(bar, <<i, n>>, <<i + 1, n>>)
Sub(bar, L, U) == Share(bar, <<L, 100>>, <<U, 100>>)
Within(s, t) == QLe(t.a, s.a) /\ QLe(s.a, s.b) /\ QLe(s.b, t.b)
In(y, s) == QLe(s.a, y) /\ QLe(y, s.b)
=============================================================================
