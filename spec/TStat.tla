------------------------------- MODULE TStat -------------------------------
(* Trace specification of the statistics of labelled fields.  Arrays are given *)
(* by their axes (id, labels) in their own order and flat values; ids name the *)
(* axes, labels their points.  Two fields are compared over the points they    *)
(* share; along an axis a field lacks it is the same everywhere.               *)
(* Event: fn, xs (fields; the last is Y, for isnonzero the only one), red (ids *)
(* of the reduced axes), all (no axes were named), fac, facy, alpha, res:      *)
(* [k |-> "err"] or outs: sequence of [n, ax, v].                              *)
EXTENDS Stat, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Ids(a) == {a.ax[k].id : k \in 1..Len(a.ax)}
AxOf(a, id) == a.ax[CHOOSE k \in 1..Len(a.ax) : a.ax[k].id = id]
In(x, s) == \E i \in 1..Len(s) : s[i] = x
Pos(x, s) == CHOOSE i \in 1..Len(s) : s[i] = x
\* labels of axis id common to all fields that have it, in the order of the first
Common(xs, id) == LET have == SelectSeq(xs, LAMBDA a : id \in Ids(a))
                  IN SelectSeq(AxOf(have[1], id).lab, LAMBDA v : \A i \in 1..Len(have) : In(v, AxOf(have[i], id).lab))
\* value of a where each axis id has the label c[id]
RECURSIVE Off(_, _, _, _)
Off(a, c, k, o) == IF k > Len(a.ax) THEN o ELSE Off(a, c, k + 1, o * Len(a.ax[k].lab) + Pos(c[a.ax[k].id], a.ax[k].lab) - 1)
At(a, c) == a.v[Off(a, c, 1, 0) + 1]
\* all assignments of labels to the ids in the sequence s, extending c
RECURSIVE Assign(_, _, _)
RECURSIVE Over(_, _, _, _, _)
Over(xs, s, c, labs, i) == IF i > Len(labs) THEN <<>> ELSE Assign(xs, Tail(s), [c EXCEPT ![Head(s)] = labs[i]]) \o Over(xs, s, c, labs, i + 1)
Assign(xs, s, c) == IF s = <<>> THEN <<c>> ELSE Over(xs, s, c, Common(xs, Head(s)), 1)
None == [i \in 1..9 |-> 0]
RECURSIVE Sq(_)
Sq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o Sq(S \ {m})
AllIds(xs) == UNION {Ids(xs[i]) : i \in 1..Len(xs)}
\* what an output must look like
OutOk(e, o, extra) == {o.ax[k].id : k \in 1..Len(o.ax)} \ extra = AllIds(e.xs) \ {e.red[i] : i \in 1..Len(e.red)}
                 /\ Cardinality({o.ax[k].id : k \in 1..Len(o.ax)}) = Len(o.ax)
                 /\ \A k \in 1..Len(o.ax) : o.ax[k].id \in extra \/ o.ax[k].lab = Common(e.xs, o.ax[k].id)
Out(e, n) == IF \E i \in 1..Len(e.outs) : e.outs[i].n = n THEN <<e.outs[CHOOSE i \in 1..Len(e.outs) : e.outs[i].n = n]>> ELSE <<>>
SaidAt(e, n, c) == LET o == Out(e, n) IN IF o = <<>> THEN Absent ELSE At(o[1], c)
Fields == {"r", "r2", "p", "m", "b", "se", "sm", "d", "df", "ci"}
Obs(e, c) == [f \in Fields |-> SaidAt(e, f, c)]
Cell(e, c) ==
  LET pts == Assign(e.xs, e.red, c)
      col(i) == [k \in 1..Len(pts) |-> At(e.xs[i], pts[k])]
      ps == Pairs(col(1), col(Len(e.xs)))
  IN CASE e.fn = "correlate" -> Correlate(ps, Obs(e, c))
       [] e.fn = "regress" -> Regress(ps, e.fac, Obs(e, c))
       [] e.fn = "paired_difference" -> Paired(ps, e.fac, e.alpha, Obs(e, c))
       [] e.fn = "isnonzero" -> NonZero(col(1), e.fac, e.alpha, Obs(e, c))
       [] e.fn = "difference" -> Difference(col(1), col(2), e.fac, e.facy, e.alpha, Obs(e, c))
       [] OTHER -> LET k == Len(e.xs) - 1
                       rows == [j \in 1..Len(pts) |-> [i \in 1..k + 1 |-> At(e.xs[i], pts[j])]]
                       of(n) == [i \in 1..k |-> SaidAt(e, n, [c EXCEPT ![8] = i])]
                       const == \E i \in 1..k : rows[1][i] # 0 /\ \A j \in 1..Len(rows) : rows[j][i] = rows[1][i]
                   IN Multi(rows, k, const, [b |-> of("beta"), p |-> of("p"), sb |-> of("sb"), r2 |-> SaidAt(e, "R2", c), se |-> SaidAt(e, "se", c)])
RECURSIVE Cells(_, _)
Cells(e, cs) == IF cs = <<>> THEN <<>> ELSE LET b == Cell(e, Head(cs)) IN IF b # <<>> THEN b ELSE Cells(e, Tail(cs))
Bad(e) == IF e.k = "err" THEN <<"fails">>
  ELSE IF ~(\A i \in 1..Len(e.outs) : OutOk(e, e.outs[i], {8, 9})) THEN <<"axes-of-result">>
  ELSE F({e.outs[i].n : i \in 1..Len(e.outs)} = {e.want[i] : i \in 1..Len(e.want)}, "outputs")
       \o Cells(e, Assign(e.xs, Sq(AllIds(e.xs) \ {e.red[i] : i \in 1..Len(e.red)}), None))
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET bad == Bad(Trace[l]) IN IF bad = <<>> THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, clauses |-> bad]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
