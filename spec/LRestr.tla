-------------------------------- MODULE LRestr --------------------------------
(* Restructuring, concatenation and ensembles.                                *)
EXTENDS LFun

\* permutation p (1-based source axis of each result axis)
Transpose(A, p) ==
  LET n == Len(A.ax)
      inv == TLCEval([i \in 1..n |-> CHOOSE j \in 1..n : p[j] = i])
  IN Build([j \in 1..n |-> A.ax[p[j]]], LAMBDA m : At(A, [i \in 1..n |-> m[inv[i]]]))
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>> ELSE <<Head(s)>> \o Uniq(SelectSeq(Tail(s), LAMBDA x : x # Head(s)))
Perm(n, p) == Uniq(p \o [i \in 1..n |-> i])
Squeeze(A, S) == DropAxes(A, {i \in S : A.sh[i] = 1})
\* new axes inserted at position pos (0-based), values repeated along them
Extend(A, pos, new) ==
  LET n == Len(A.ax)
      axs == SubSeq(A.ax, 1, pos) \o new \o SubSeq(A.ax, pos + 1, n)
  IN Build(axs, LAMBDA m : At(A, [i \in 1..n |-> IF i <= pos THEN m[i] ELSE m[i + Len(new)]]))
NatOrder(k) == IF IsKind(k, "Pres") \/ IsKind(k, "Hybrid") THEN -1 ELSE 1
Rank(v, x, dir) == Cardinality({j \in 1..Len(v) : IF dir > 0 THEN v[j] < x ELSE v[j] > x})
SortIx(v, dir) == [r \in 1..Len(v) |-> (CHOOSE j \in 1..Len(v) : Rank(v, v[j], dir) = r - 1) - 1]
\* o: for each axis "" (leave), 1, -1, or 0 (natural order of its kind)
SortAll(A, o) == TakeAll(A, TLCEval([i \in 1..Len(A.ax) |->
   IF o[i] = 9 THEN [j \in 1..A.sh[i] |-> j - 1]
   ELSE SortIx(A.ax[i].v, IF o[i] = 0 THEN NatOrder(A.ax[i].k) ELSE o[i])]))
RenameAx(A, i, nm) == [A EXCEPT !.ax[i].n = nm]
CastTo(a, t) == IF IsOpen(a) THEN Open ELSE IF t = "int" THEN F1("trunc", a) ELSE IF t = "bool" THEN Bool(a # Zero) ELSE a

----------------------------------------------------------------------------
CommonAux(as) == {nm \in AuxNames(as[1]) : \A i \in 1..Len(as) : nm \in AuxNames(as[i])}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
ConcatAx(as) == [k |-> as[1].k, n |-> as[1].n, v |-> CatAll([i \in 1..Len(as) |-> as[i].v]),
                 x |-> LET S == SetSeq(CommonAux(as))
                       IN [j \in 1..Len(S) |-> [a |-> S[j], v |-> CatAll([i \in 1..Len(as) |-> AuxVal(as[i], S[j])])]]]
\* which piece, and where in it, position p (0-based) of the concatenation lies
RECURSIVE Locate(_, _, _)
Locate(lens, p, i) == IF p < lens[i] THEN <<i, p>> ELSE Locate(lens, p - lens[i], i + 1)
Concat(as, i) ==
  LET lens == [k \in 1..Len(as) |-> as[k].sh[i]]
      ax == ConcatAx([k \in 1..Len(as) |-> as[k].ax[i]])
      loc == TLCEval([p \in 1..Len(ax.v) |-> Locate(lens, p - 1, 1)])
  IN Build([as[1].ax EXCEPT ![i] = ax], LAMBDA m : LET q == loc[m[i] + 1] IN At(as[q[1]], [m EXCEPT ![i] = q[2]]))
\* stacking members along a new axis, placed at position pos (0-based)
Stack(as, pos, ax) ==
  LET n == Len(as[1].ax)
      axs == SubSeq(as[1].ax, 1, pos) \o <<ax>> \o SubSeq(as[1].ax, pos + 1, n)
  IN Build(axs, LAMBDA m : At(as[m[pos + 1] + 1], [i \in 1..n |-> IF i <= pos THEN m[i] ELSE m[i + 1]]))
SameAxes(a, b) == Len(a.ax) = Len(b.ax) /\ \A i \in 1..Len(a.ax) : AxEq(a.ax[i], b.ax[i])
Varying(as) == {i \in 1..Len(as[1].ax) : \E k \in 2..Len(as) : ~AxEq(as[1].ax[i], as[k].ax[i])}
AllVarying(as, i) == \A k \in 2..Len(as) : ~AxEq(as[1].ax[i], as[k].ax[i])
ConcatExp(e, as) ==
  IF Len(as) = 1 THEN Arr(as[1])
  ELSE IF \E k \in 2..Len(as) : Len(as[k].ax) # Len(as[1].ax) THEN Err
  ELSE IF \E k \in 2..Len(as) : \E i \in 1..Len(as[1].ax) : ~IsKind(as[k].ax[i].k, as[1].ax[i].k) \/ (IsNamed(as[k].ax[i]) /\ as[k].ax[i].n # as[1].ax[i].n) THEN Err
  \* pieces that share points are not pieces of one variable
  ELSE IF \E i \in (IF e.iaxis # 0 THEN {e.iaxis} ELSE Varying(as)) : \E j, k \in 1..Len(as) :
             j # k /\ Range(as[j].ax[i].v) \cap Range(as[k].ax[i].v) # {} THEN Free
  ELSE IF e.iaxis # 0 THEN (IF \A i \in Varying(as) : i = e.iaxis THEN Arr(Concat(as, e.iaxis)) ELSE Err)
  ELSE IF Varying(as) = {} THEN Arr(Stack(as, Len(as[1].ax), [k |-> "NamedAxis", n |-> "concat", v |-> [i \in 1..Len(as) |-> SC * (i - 1)], x |-> <<>>]))
  ELSE IF Cardinality(Varying(as)) > 1 THEN Err
  ELSE IF \A i \in Varying(as) : AllVarying(as, i) THEN Arr(Concat(as, CHOOSE i \in Varying(as) : TRUE))
  ELSE Free
=============================================================================
