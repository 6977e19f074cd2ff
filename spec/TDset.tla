------------------------------- MODULE TDset -------------------------------
(* Trace specification of datasets: every recorded operation must be a step of *)
(* the machine of Dset, up to the choice of new names where names clash, and   *)
(* every dataset observed must be a consistent namespace.                      *)
EXTENDS Dset, Json, IOUtils, Functions
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, reg
F(b, c) == IF b THEN <<>> ELSE <<c>>
Ax(a) == [k |-> a.k, n |-> a.n, v |-> a.v, x |-> a.x]
Axs(s) == [i \in 1..Len(s) |-> Ax(s[i])]
----------------------------------------------------------------------------
(* consistency of an observed dataset *)
IdsOf(s) == [i \in 1..Len(s) |-> s[i].id]
OaxOf(o) == CatAll([i \in 1..Len(o.vars) |-> o.vars[i].ax])
DsBad(o) ==
  LET vn == [i \in 1..Len(o.vars) |-> o.vars[i].n]
      va == OaxOf(o)
      an == [i \in 1..Len(o.axes) |-> o.axes[i].n]
  IN F(Cardinality(Range(vn)) = Len(vn), "variable-names-not-unique")
     \o F(\A i \in 1..Len(vn) : vn[i] # "", "variable-without-name")
     \o F(Range(o.vd) = {<<o.vars[i].n, o.vars[i].id>> : i \in 1..Len(vn)} /\ Len(o.vd) = Len(vn), "names-do-not-lead-to-the-variables")
     \o F(Range(IdsOf(va)) = Range(IdsOf(o.axes)), "axes-of-variables-not-those-of-the-dataset")
     \o F(Cardinality(Range(IdsOf(o.axes))) = Len(o.axes), "axis-listed-twice")
     \o F(Cardinality(Range(an)) = Len(an), "axis-names-not-unique")
     \o F(Range(o.ad) = {<<o.axes[i].n, o.axes[i].id>> : i \in 1..Len(an)} /\ Len(o.ad) = Len(an), "names-do-not-lead-to-the-axes")
     \o F(\A j \in 1..Len(o.look) : LET k == o.look[j][1] vs == SelectSeq(o.vars, LAMBDA v : v.n = k) as == SelectSeq(o.axes, LAMBDA a : a.n = k)
                                    IN o.look[j][2] = IF vs # <<>> THEN vs[1].id ELSE IF as # <<>> THEN as[1].id ELSE -1, "lookup-finds-another-object")
     \o F(o.iter = IdsOf(o.vars), "iteration-differs-from-members")
     \o F(\A i \in 1..Len(o.vars) : o.vars[i].sh = Sh(Axs(o.vars[i].ax)), "shape-of-variable")
----------------------------------------------------------------------------
(* the wanted members, their values and attributes *)
MembersBad(vs, o) ==
  LET A == AxesOf(vs)
      name(i) == Want(vs[i].n)
      alone(i) == ~\E j \in 1..Len(vs) : j # i /\ name(j) = name(i)
      ov == [i \in 1..Len(vs) |-> [vs[i] EXCEPT !.ax = Axs(o.vars[i].ax)]]
  IN IF Len(o.vars) # Len(vs) THEN <<"members-lost-or-added">>
     ELSE CatAll([i \in 1..Len(vs) |->
       LET v == o.vars[i]
       IN F(IF alone(i) THEN v.n = name(i) ELSE Prefix(name(i), v.n), "name-of-member")
          \o F(Range(v.at) = Range(vs[i].at), "attributes-of-member")
          \o (IF Len(v.ax) # Len(vs[i].ax) THEN <<"axes-of-member">>
              ELSE F(\A q \in 1..Len(v.ax) : v.ax[q].v = vs[i].ax[q].v /\ Related(v.ax[q], vs[i].ax[q]) /\ AuxSame(v.ax[q], vs[i].ax[q]), "axes-of-member")
                   \o F(\A q \in 1..Len(v.ax) : IF Alone(vs, vs[i].ax[q].n) THEN v.ax[q].n = vs[i].ax[q].n ELSE Prefix(vs[i].ax[q].n, v.ax[q].n), "name-of-axis")
                   \o F(v.dat = Dat(ov[i]), "values-of-member"))])
        \o (IF \E i \in 1..Len(vs) : Len(o.vars[i].ax) # Len(vs[i].ax) THEN <<>>
            ELSE F(\A i, j \in 1..Len(vs) : \A q \in 1..Len(vs[i].ax) : \A r \in 1..Len(vs[j].ax) :
                     vs[i].ax[q].n = vs[j].ax[r].n =>
                       (AxisEq(vs[i].ax[q], vs[j].ax[r]) <=> o.vars[i].ax[q].id = o.vars[j].ax[r].id), "equal-axes-not-shared-or-unequal-axes-merged"))
----------------------------------------------------------------------------
Vars(h) == reg[h].vars
Gat(h) == reg[h].at
Rest(s) == CatAll([i \in 1..(Len(s) - 1) |-> Vars(s[i + 1])])
IsDs(h) == reg[h].kind = "d"
\* members added: in the order given, or variables before those of datasets
VarsFirst(s) == CatAll([i \in 1..Len(s) |-> IF IsDs(s[i]) THEN <<>> ELSE Vars(s[i])]) \o CatAll([i \in 1..Len(s) |-> IF IsDs(s[i]) THEN Vars(s[i]) ELSE <<>>])
DsFirst(s) == LET D == SelectSeq(s, LAMBDA h : IsDs(h)) V == SelectSeq(s, LAMBDA h : ~IsDs(h)) IN CatAll([i \in 1..Len(D) |-> Vars(D[i])]) \o CatAll([i \in 1..Len(V) |-> Vars(V[i])])
DsAtts(s) == LET D == SelectSeq(s, LAMBDA h : IsDs(h)) IN IF D = <<>> THEN <<>> ELSE AtCommon([i \in 1..Len(D) |-> Gat(D[i])])
Ok(orders, at) == [err |-> "no", orders |-> orders, at |-> at]
Refuse == [err |-> "must", orders |-> <<>>, at |-> <<>>]
Undet == [err |-> "may", orders |-> <<>>, at |-> <<>>]
Applied(f, arg, v) ==
  CASE f = "id" -> v
    [] f = "twice" -> [v EXCEPT !.f = @ * 2]
    [] f = "times" -> [v EXCEPT !.f = @ * arg[1]]
    [] f = "load" -> v
    [] f = "sorted" -> Sorted2(v)
    [] f = "squeeze" -> Squeezed(v)
    [] f = "rename" -> [v EXCEPT !.n = arg[1]]
    [] f = "pre" -> [v EXCEPT !.n = @ \o arg[1]]
    [] f = "rename_axes" -> RenamedAx(v, arg[1], arg[2])
Wanted(e) ==
  CASE e.op = "new" -> Ok(<<CatAll([i \in 1..Len(e.src) |-> Vars(e.src[i])])>>, e.at)
    [] e.op = "asds" -> IF \E i \in 1..Len(e.src) : IsDs(e.src[i])
                        THEN LET D == SelectSeq(e.src, LAMBDA h : IsDs(h)) d == D[1]
                                 r == SelectSeq(e.src, LAMBDA h : h # d)
                             IN Ok(<<CatAll([i \in 1..Len(e.src) |-> Vars(e.src[i])]), DsFirst(e.src), Vars(d) \o VarsFirst(r)>>, DsAtts(e.src))
                        ELSE Ok(<<CatAll([i \in 1..Len(e.src) |-> Vars(e.src[i])])>>, <<>>)
    [] e.op = "copy" -> Ok(<<Vars(e.src[1])>>, Gat(e.src[1]))
    [] e.op = "rename" -> Ok(<<RenameTo(Vars(e.src[1]), e.mp)>>, Gat(e.src[1]))
    [] e.op = "remove" -> IF \A i \in 1..Len(e.ns) : HasName(Vars(e.src[1]), e.ns[i]) THEN Ok(<<Without(Vars(e.src[1]), Range(e.ns))>>, Gat(e.src[1])) ELSE Refuse
    [] e.op = "add" -> Ok(<<Vars(e.src[1]) \o Rest(e.src), Vars(e.src[1]) \o VarsFirst(Tail(e.src)), Vars(e.src[1]) \o DsFirst(Tail(e.src))>>, DsAtts(e.src))
    [] e.op = "addbad" -> Refuse
    [] e.op = "replace" -> Ok(<<Swap(Vars(e.src[1]), [i \in 1..Len(e.ns) |-> <<e.ns[i], Vars(e.src[i + 1])[1]>>])>>, Gat(e.src[1]))
    [] e.op = "map" -> LET vs == SelectSeq(Vars(e.src[1]), LAMBDA v : v.n \notin Range(e.drop)) IN Ok(<<[i \in 1..Len(vs) |-> Applied(e.f, e.arg, vs[i])]>>, Gat(e.src[1]))
    [] e.op = "mapbad" -> IF Vars(e.src[1]) = <<>> THEN Undet ELSE Refuse
    [] e.op = "sub" -> LET vs == TLCEval([i \in 1..Len(Vars(e.src[1])) |-> LET G[j \in 0..Len(e.sel)] == IF j = 0 THEN Vars(e.src[1])[i] ELSE Subset(G[j - 1], e.sel[j]) IN G[Len(e.sel)]])
                       IN IF \E i \in 1..Len(vs) : NoPoints(vs[i]) THEN Undet ELSE Ok(<<vs>>, Gat(e.src[1]))
    [] e.op = "concat" -> Ok(<<ConcatOf([i \in 1..Len(e.src) |-> Vars(e.src[i])])>>, AtCommon([i \in 1..Len(e.src) |-> Gat(e.src[i])]))
ObsBad(e, w) ==
  IF e.obs.k = "err" THEN (IF w.err = "no" THEN <<"raised-error">> ELSE <<>>)
  ELSE IF e.obs.k # "ds" THEN <<"does-not-return">>
  ELSE IF w.err = "must" THEN <<"accepted-what-must-be-rejected">>
  ELSE DsBad(e.obs) \o (IF w.err = "may" THEN <<>> ELSE
       LET bads == TLCEval([i \in 1..Len(w.orders) |-> MembersBad(w.orders[i], e.obs)])
           best == CHOOSE i \in 1..Len(bads) : \A j \in 1..Len(bads) : Len(bads[i]) <= Len(bads[j])
       IN bads[best] \o F(Range(e.obs.at) = Range(w.at), "attributes-of-dataset"))
\* what is known of the dataset from here on: the wanted values under the names found
Adopt(e, w) ==
  IF e.obs.k # "ds" \/ w.err # "no" THEN [kind |-> "x", vars |-> <<>>, at |-> <<>>, obs |-> [k |-> "err"]]
  ELSE LET bads == TLCEval([i \in 1..Len(w.orders) |-> MembersBad(w.orders[i], e.obs)])
           best == CHOOSE i \in 1..Len(bads) : \A j \in 1..Len(bads) : Len(bads[i]) <= Len(bads[j])
           vs == w.orders[best]
       IN IF Len(vs) # Len(e.obs.vars) THEN [kind |-> "x", vars |-> <<>>, at |-> <<>>, obs |-> [k |-> "err"]]
          ELSE [kind |-> "d", at |-> e.obs.at, obs |-> e.obs,
                vars |-> TLCEval([i \in 1..Len(vs) |-> [vs[i] EXCEPT !.n = e.obs.vars[i].n, !.at = e.obs.vars[i].at, !.ax = Axs(e.obs.vars[i].ax)]])]
Live(e) == \A i \in 1..Len(e.src) : reg[e.src[i]].kind # "x"
----------------------------------------------------------------------------
VarRec(e) == [kind |-> "v", at |-> <<>>, obs |-> e.obs, vars |-> <<[n |-> e.obs.n, t |-> e.t, f |-> 1, c |-> 0, at |-> e.obs.at, ax |-> Axs(e.obs.ax)]>>]
VarBad(e) == LET v == VarRec(e).vars[1] IN F(e.obs.dat = Dat(v), "values-of-member")
Init == l = 1 /\ reg = <<>>
Step(e) ==
  CASE e.op = "begin" -> reg' = <<>>
    [] e.op = "var" -> /\ reg' = Append(reg, VarRec(e))
                       /\ LET bad == VarBad(e) IN IF bad = <<>> THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, clauses |-> bad]))
    \* an object observed before, observed again
    [] e.op = "again" -> /\ UNCHANGED reg
                         /\ LET bad == IF reg[e.src[1]].kind = "x" THEN <<>> ELSE F(e.obs = reg[e.src[1]].obs, "object-changed-by-operation-on-it")
                            IN IF bad = <<>> THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, clauses |-> bad]))
    [] OTHER -> IF ~Live(e) THEN reg' = Append(reg, [kind |-> "x", vars |-> <<>>, at |-> <<>>, obs |-> [k |-> "err"]])
                ELSE LET w == Wanted(e) bad == ObsBad(e, w)
                     IN /\ IF bad = <<>> THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, clauses |-> bad]))
                        /\ reg' = Append(reg, Adopt(e, w))
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<l, reg>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
