-------------------------------- MODULE LAxis --------------------------------
(* Identity and matching of axes.  axis = [k, n, v (integers, in units of a     *)
(* fraction of the spacing), x |-> sequence of [a |-> name, v |-> strings]]    *)
EXTENDS LOps
IsNonC(a) == IsKind(a.k, "NonCoordinateAxis")
AuxSame(a, b) == AuxNames(a) = AuxNames(b) /\ \A nm \in AuxNames(a) : AuxVal(a, nm) = AuxVal(b, nm)
AxisEq(a, b) ==
  IF IsNonC(a) \/ IsNonC(b) THEN a.k = b.k /\ AuxSame(a, b)
  ELSE /\ Related(a, b)
       /\ (IsNamed(a) \/ IsNamed(b)) => (IsNamed(a) /\ IsNamed(b) /\ a.n = b.n)
       /\ (a.k = "Axis" /\ b.k = "Axis") => a.n = b.n
       /\ a.v = b.v /\ AuxSame(a, b)
\* positions (1-based) in a of coordinate x
Where(a, x) == {i \in 1..Len(a.v) : a.v[i] = x}
\* the points of b, in order, that a has
Matched(a, b) == SelectSeq([j \in 1..Len(b.v) |-> j], LAMBDA j : Where(a, b.v[j]) # {})
Mappable2(a, b) == Related(a, b) /\ ((IsNamed(a) \/ IsNamed(b)) => (IsNamed(a) /\ IsNamed(b) /\ a.n = b.n))
MinGap(s) == LET S == {Abs(s[i] - s[j]) : i, j \in DOMAIN s} \ {0} IN IF S = {} THEN 0 ELSE CHOOSE g \in S : \A h \in S : g <= h
\* points of a that x may be taken for: equal ones; failing these, when the coordinates are
\* so large that the tolerance reaches up to half the spacing of a (or a has one point and so
\* no spacing), a closest point within that
Near(a, x, loose) == IF Where(a, x) # {} \/ ~loose THEN {}
                     ELSE LET g == MinGap(a.v)
                          IN {i \in 1..Len(a.v) : /\ g = 0 \/ 2 * Abs(a.v[i] - x) <= g
                                                  /\ \A j \in 1..Len(a.v) : Abs(a.v[i] - x) <= Abs(a.v[j] - x)}
\* is ix (0-based) a right answer for mapping a onto b
RECURSIVE MapFrom(_, _, _, _, _, _)
MapFrom(a, b, ix, j, q, loose) ==
  IF j > Len(b.v) THEN q > Len(ix)
  ELSE LET W == Where(a, b.v[j]) N == Near(a, b.v[j], loose)
       IN \/ (q <= Len(ix) /\ (ix[q] + 1) \in (W \cup N) /\ MapFrom(a, b, ix, j + 1, q + 1, loose))
          \/ (W = {} /\ MapFrom(a, b, ix, j + 1, q, loose))
MapOk(a, b, ix, loose) == MapFrom(a, b, ix, 1, 1, loose)
\* may two unequal axes be identified: only if every point lies within the larger tolerance
EqOpen(a, b) == /\ Len(a.v) = Len(b.v)
                /\ LET ga == MinGap(a.v) gb == MinGap(b.v) g == IF ga = 0 \/ gb = 0 THEN 0 ELSE IF ga > gb THEN ga ELSE gb
                   IN g = 0 \/ \A i \in 1..Len(a.v) : 2 * Abs(a.v[i] - b.v[i]) <= g
\* non-coordinate axes are matched through the associated arrays both have
Common(a, b) == AuxNames(a) \cap AuxNames(b)
NonCRow(a, S, i) == [nm \in S |-> AuxVal(a, nm)[i]]
NonCOk(a, b, ix) == LET S == Common(a, b)
                        js == SelectSeq([j \in 1..Len(b.v) |-> j], LAMBDA j : \E i \in 1..Len(a.v) : NonCRow(a, S, i) = NonCRow(b, S, j))
                    IN Len(ix) = Len(js) /\ \A q \in 1..Len(js) : ix[q] + 1 \in 1..Len(a.v) /\ NonCRow(a, S, ix[q] + 1) = NonCRow(b, S, js[q])
=============================================================================
