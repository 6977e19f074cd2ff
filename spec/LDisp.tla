-------------------------------- MODULE LDisp --------------------------------
(* Which specified operation an event names.                                  *)
EXTENDS LComp

OpExp(e, env) ==
  LET A == env[e.src[1]]
      B == env[e.src[2]]
      As == [i \in 1..Len(e.src) |-> env[e.src[i]]]
  IN CASE e.op = "new"    -> Arr(FromObs(e.obs))
       [] e.op = "isel"   -> IF ISelOk(A, e.es) THEN Arr(ISel(A, e.es)) ELSE Err
       [] e.op = "iget"   -> IF ISelOk(A, e.es) THEN Vals(IGet(A, e.es)) ELSE Err
       [] e.op = "axvar"  -> Arr(AxisVar(A, e.i))
       [] e.op = "same"   -> Arr(A)
       [] e.op = "sel" -> SelExp(e, A)
       [] e.op = "fun" -> UfuncExp([i \in 1..Len(e.args) |-> [h |-> e.args[i].h # 0, c |-> e.args[i].c,
                                        a |-> IF e.args[i].h # 0 THEN env[e.args[i].h] ELSE <<>>]], LAMBDA v : FN(e.f, v), e.obs)
       [] e.op = "fun1" -> Arr(Map1(A, LAMBDA x : F1(e.f, x)))
       [] e.op = "transpose" -> Arr(Transpose(A, Perm(Len(A.ax), e.p)))
       [] e.op = "squeeze" -> Arr(Squeeze(A, IF e.s = <<>> THEN 1..Len(A.ax) ELSE Range(e.s)))
       [] e.op = "extend" -> Arr(Extend(A, e.pos, e.ax))
       [] e.op = "sort" -> Arr(SortAll(A, e.o))
       [] e.op = "renameax" -> Arr(RenameAx(A, e.i, e.n))
       [] e.op = "replaceax" -> IF [i \in 1..Len(e.ax) |-> Len(e.ax[i].v)] = A.sh THEN Arr([A EXCEPT !.ax = e.ax]) ELSE Err
       [] e.op = "cast" -> Arr(Map1(A, LAMBDA x : CastTo(x, e.t)))
       [] e.op = "fill" -> Arr(Map1(A, LAMBDA x : IF IsNaN(x) THEN e.c ELSE x))
       [] e.op = "unfill" -> Arr(Map1(A, LAMBDA x : IF x = e.c THEN NaN ELSE x))
       [] e.op = "uses" -> Arr(TakeAll(A, TLCEval([q \in 1..Len(A.ax) |-> SelectSeq([j \in 1..A.sh[q] |-> j - 1], LAMBDA j : q # e.i \/ A.ax[q].v[j + 1] \in Range(B.ax[q].v))])))
       [] e.op = "concat" -> ConcatExp(e, As)
       [] e.op = "stack" -> IF \A i \in 2..Len(As) : SameAxes(As[1], As[i]) THEN Arr(Stack(As, e.pos, e.ax)) ELSE Err
       [] e.op = "red" -> RedExp(e, A, B)
       [] e.op \in {"diff", "deriv", "smooth"} -> CalcExp(e, A, B)
       [] e.op = "interp" -> InterpExp(e, A, IF e.hx = 0 THEN <<>> ELSE env[e.hx], IF e.ho = 0 THEN <<>> ELSE env[e.ho])
       [] e.op \in {"composite", "flatten"} -> CompExp(e, A)
       [] e.op = "integ" -> IntegExp(e, A, IF e.hd = 0 THEN <<>> ELSE env[e.hd], IF e.hv = 0 THEN <<>> ELSE env[e.hv])
=============================================================================
