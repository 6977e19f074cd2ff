-------------------------------- MODULE LFun --------------------------------
(* Elementwise functions on exact rationals, including the IEEE specials.      *)
(* Transcendental functions are defined on the points where they are rational; *)
(* elsewhere F1Def is FALSE.                                                  *)
EXTENDS LOps

Bool(b) == IF b THEN One ELSE Zero
FloorDiv(n, d) == n \div d                 \* TLA+ \div floors
RMod(a, b) == IF IsNaN(a) \/ IsNaN(b) \/ ~IsFin(a) THEN NaN
              ELSE IF b = Zero THEN NaN
              ELSE IF Big(a[1], b[2]) \/ Big(a[2], b[1]) THEN Open
              ELSE IF b[1] > 0 THEN RSub(a, RMul(b, I((a[1] * b[2]) \div (a[2] * b[1]))))
              ELSE RSub(a, RMul(b, I((-(a[1] * b[2])) \div (a[2] * (-b[1])))))
RECURSIVE RPowN(_, _)
RPowN(a, n) == IF n = 0 THEN One ELSE RMul(a, RPowN(a, n - 1))
\* integer exponents
RPow(a, b) == IF b = Zero \/ a = One THEN One
              ELSE IF IsNaN(a) \/ IsNaN(b) THEN NaN
              ELSE IF b[1] > 0 THEN RPowN(a, b[1]) ELSE RDiv(One, RPowN(a, -b[1]))

F2(f, a, b) ==
  CASE f = "+" -> RAdd(a, b) [] f = "-" -> RSub(a, b) [] f = "*" -> RMul(a, b) [] f = "/" -> RDiv(a, b)
    [] f = "%" -> RMod(a, b) [] f = "**" -> RPow(a, b)
    [] f = "<" -> Bool(RLt(a, b)) [] f = "<=" -> Bool(RLe(a, b)) [] f = ">" -> Bool(RLt(b, a)) [] f = ">=" -> Bool(RLe(b, a))
    [] f = "==" -> Bool(REq(a, b)) [] f = "!=" -> Bool(~REq(a, b))
    [] f = "minimum" -> RMin(a, b) [] f = "maximum" -> RMax(a, b)
FN(f, v) ==
  CASE (\E i \in 1..Len(v) : IsOpen(v[i])) -> Open
    [] f = "vprod" -> (LET p[i \in 0..Len(v)] == IF i = 0 THEN One ELSE RMul(p[i - 1], v[i]) IN p[Len(v)])
    [] f = "vsum" -> RSum(v)
    [] f = "clip" -> RMin(RMax(v[1], v[2]), v[3])
    [] OTHER -> F2(f, v[1], v[2])

Table(f) ==   \* <<argument, value>> pairs
  CASE f \in {"exp", "cos", "cosh"} -> << <<Zero, One>> >>
    [] f \in {"sin", "tan", "sinh", "tanh", "arcsin", "arctan", "arcsinh", "arctanh", "arcsind"} -> << <<Zero, Zero>> >>
    [] f \in {"arccos", "arccosh"} -> << <<One, Zero>> >>
    [] f = "log" -> << <<One, Zero>> >>
    [] f = "log10" -> << <<One, Zero>>, <<I(10), One>>, <<I(100), I(2)>>, <<Q(1, 10), I(-1)>> >>
    [] f = "cosd" -> << <<Zero, One>>, <<I(60), Q(1, 2)>>, <<I(-60), Q(1, 2)>>, <<I(120), Q(-1, 2)>>, <<I(180), I(-1)>> >>
    [] f = "sind" -> << <<Zero, Zero>>, <<I(30), Q(1, 2)>>, <<I(-30), Q(-1, 2)>>, <<I(90), One>>, <<I(150), Q(1, 2)>>, <<I(270), I(-1)>> >>
    [] f = "tand" -> << <<Zero, Zero>>, <<I(45), One>>, <<I(-45), I(-1)>>, <<I(135), I(-1)>> >>
    [] f = "arccosd" -> << <<One, Zero>>, <<Zero, I(90)>>, <<Q(1, 2), I(60)>>, <<I(-1), I(180)>> >>
    [] f = "arctand" -> << <<Zero, Zero>>, <<One, I(45)>>, <<I(-1), I(-45)>> >>
    [] f = "sqrt" -> << <<Zero, Zero>>, <<One, One>>, <<I(4), I(2)>>, <<I(9), I(3)>>, <<Q(1, 4), Q(1, 2)>>, <<I(144), I(12)>> >>
    [] OTHER -> <<>>
\* extra points reached only through table arguments
F1(f, a) ==
  CASE IsOpen(a) -> Open
    [] f \in {"abs", "absolute"} -> RAbs(a)
    [] f = "neg" -> RNeg(a)
    [] f \in {"pos", "real", "conj"} -> a
    [] f = "imag" -> Zero
    [] f = "sign" -> IF IsNaN(a) THEN NaN ELSE I(Sgn(a[1]))
    [] f = "trunc" -> I(IF a[1] >= 0 THEN a[1] \div a[2] ELSE -((-a[1]) \div a[2]))
    [] f = "nan_to_num" -> IF IsNaN(a) THEN Zero ELSE a
    [] OTHER -> IF IsNaN(a) THEN NaN
                ELSE LET t == Table(f)
                     IN IF \E i \in 1..Len(t) : t[i][1] = a THEN t[CHOOSE i \in 1..Len(t) : t[i][1] = a][2] ELSE Open

----------------------------------------------------------------------------
(* n-ary elementwise operation.  ops: sequence of [h |-> is array?, a |-> array, c |-> scalar]. *)
(* Axes of the operands that are related (same kind or parent kind, same name *)
(* when names identify them) are one axis of the result; its points are those *)
(* of the operand axis that all the others cover.                             *)
Mappable(a, b) == Related(a, b) /\ ((IsNamed(a) \/ IsNamed(b)) => a.n = b.n)
CSet(a) == Range(a.v)
\* operand axes as <<operand, axis>> pairs
OpAxes(ops) == {<<i, j>> : i \in {k \in 1..Len(ops) : ops[k].h}, j \in 1..6}
Pairs(ops) == {p \in OpAxes(ops) : p[2] <= Len(ops[p[1]].a.ax)}
AxAt(ops, p) == ops[p[1]].a.ax[p[2]]
Group(ops, p) == {q \in Pairs(ops) : Mappable(AxAt(ops, p), AxAt(ops, q))}
Groups(ops) == {Group(ops, p) : p \in Pairs(ops)}
Cands(ops, G) == {p \in G : \A q \in G : CSet(AxAt(ops, p)) \subseteq CSet(AxAt(ops, q))}
Nested(ops, G) == \A p, q \in G : CSet(AxAt(ops, p)) \subseteq CSet(AxAt(ops, q)) \/ CSet(AxAt(ops, q)) \subseteq CSet(AxAt(ops, p))
PosOf(a, x) == CHOOSE j \in 1..Len(a.v) : a.v[j] = x
\* oax: the observed axes, which resolve the choices left open (order of axes; which of several
\* operand axes with the same points)
UfuncOk(ops) == \A G \in Groups(ops) : Cands(ops, G) # {}
UfuncFree(ops) == \E G \in Groups(ops) : ~Nested(ops, G) /\ Cardinality(G) > 2
Ufunc(ops, F(_), oax) ==
  LET Gs == Groups(ops)
      Fits(G, x) == {p \in Cands(ops, G) : AxAt(ops, p) = x}
      Pick(G) == LET S == {p \in Cands(ops, G) : \E j \in 1..Len(oax) : AxAt(ops, p) = oax[j]}
                 IN IF S # {} THEN CHOOSE p \in S : TRUE ELSE CHOOSE p \in Cands(ops, G) : TRUE
      good == Len(oax) = Cardinality(Gs) /\ \A G \in Gs : \E j \in 1..Len(oax) : Fits(G, oax[j]) # {}
      \* without a usable observation: any order
      RECURSIVE Ord(_)
      Ord(S) == IF S = {} THEN <<>> ELSE LET G == CHOOSE g \in S : TRUE IN <<G>> \o Ord(S \ {G})
      order == TLCEval(IF good /\ \A j \in 1..Len(oax) : \E G \in Gs : Fits(G, oax[j]) # {}
                       THEN [j \in 1..Len(oax) |-> CHOOSE G \in Gs : Fits(G, oax[j]) # {}] ELSE Ord(Gs))
      axs == TLCEval([j \in 1..Len(order) |-> AxAt(ops, Pick(order[j]))])
      \* for operand i, axis k: which result axis, and where each of its points lies
      whr == TLCEval([i \in 1..Len(ops) |-> IF ~ops[i].h THEN <<>> ELSE
                [k \in 1..Len(ops[i].a.ax) |-> CHOOSE j \in 1..Len(order) : <<i, k>> \in order[j]]])
      pos == TLCEval([i \in 1..Len(ops) |-> IF ~ops[i].h THEN <<>> ELSE
                [k \in 1..Len(ops[i].a.ax) |-> [q \in 1..Len(axs[whr[i][k]].v) |-> PosOf(ops[i].a.ax[k], axs[whr[i][k]].v[q]) - 1]]])
      val(i, m) == IF ~ops[i].h THEN ops[i].c
                   ELSE At(ops[i].a, [k \in 1..Len(whr[i]) |-> pos[i][k][m[whr[i][k]] + 1]])
  IN Build(axs, LAMBDA m : F(TLCEval([i \in 1..Len(ops) |-> val(i, m)])))
Distinct(ops) == \A p \in Pairs(ops) : Cardinality(CSet(AxAt(ops, p))) = Len(AxAt(ops, p).v)
UfuncExp(ops, F(_), o) ==
  IF ~Distinct(ops) \/ UfuncFree(ops) THEN Free
  ELSE IF ~UfuncOk(ops) THEN Err
  ELSE Arr(Ufunc(ops, F, IF o.k = "arr" THEN o.ax ELSE <<>>))
Map1(a, F(_)) == [a EXCEPT !.dat = TLCEval([p \in 1..Len(a.dat) |-> F(a.dat[p])])]
=============================================================================
