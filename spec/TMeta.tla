------------------------------- MODULE TMeta -------------------------------
(* Trace specification of metadata.  The state m holds what every object of a  *)
(* program carries: variables, axes (in their own right) and, with negative    *)
(* numbers, the defaults of the classes.  Every event lists all objects as     *)
(* they are after it (snap), so an event that changes what it should not is    *)
(* seen whichever way the change came about.                                   *)
(* Events: "begin", "new" (objects made from scratch), "write" (id, what: one  *)
(* of at, pl, nm, un; k, v or to; del), or a derivation: op, srcs, out (id), axs (of the *)
(* result: [id, how, to, from]).  k = "err": the derivation failed.            *)
EXTENDS Meta, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m
vars == <<l, m>>
Pairs(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
Of(o) == [ax |-> o.ax, nm |-> o.nm, un |-> o.un, at |-> Pairs(o.at), pl |-> Pairs(o.pl)]
Snap(e) == LET ids == {e.snap[i].id : i \in 1..Len(e.snap)} IN [i \in ids |-> Of(e.snap[CHOOSE j \in 1..Len(e.snap) : e.snap[j].id = i])]
Set(s, k, v) == {p \in s : p[1] # k} \cup {<<k, v>>}
Without(s, k) == {p \in s : p[1] # k}
Written(e, o) == CASE e.what = "nm" -> [o EXCEPT !.nm = e.to]
                   [] e.what = "un" -> [o EXCEPT !.un = e.to]
                   [] e.what = "at" -> [o EXCEPT !.at = IF e.del = 1 THEN Without(@, e.k) ELSE Set(@, e.k, e.v)]
                   [] OTHER -> [o EXCEPT !.pl = IF e.del = 1 THEN Without(@, e.k) ELSE Set(@, e.k, e.v)]
\* all objects known before are as they were
Kept(e, s, but) == \A i \in DOMAIN m : i = but \/ (i \in DOMAIN s => s[i] = m[i])
Srcs(e) == [i \in 1..Len(e.srcs) |-> m[e.srcs[i]]]
RECURSIVE Axes(_, _, _)
Axes(e, s, k) == IF k > Len(e.axs) THEN <<>>
  ELSE LET a == e.axs[k] IN AxisOk(a.how, a.to, [i \in 1..Len(a.from) |-> m[a.from[i]]], s[a.id]) \o Axes(e, s, k + 1)
Bad(e, s) ==
  CASE e.op = "begin" -> <<>>
    [] e.op = "new" -> F(Kept(e, s, 0), "others-changed")
    [] e.op = "write" -> F(Kept(e, s, e.id), "others-changed") \o F(s[e.id] = Written(e, m[e.id]), "write")
    [] e.k = "err" -> <<"fails">>
    [] OTHER -> F(Kept(e, s, 0), "others-changed") \o Judge(e, Srcs(e), s[e.out]) \o Axes(e, s, 1)
Empty == [i \in {} |-> 0]
Init == l = 1 /\ m = Empty
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] s == Snap(e) bad == Bad(e, s)
           IN /\ m' = IF e.op = "begin" THEN s ELSE [i \in DOMAIN m \cup DOMAIN s |-> IF i \in DOMAIN s THEN s[i] ELSE m[i]]
              /\ IF bad = <<>> THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, clauses |-> bad]))
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
