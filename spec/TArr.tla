-------------------------------- MODULE TArr --------------------------------
(* Trace specification over the labelled-array machine.  The registry env holds *)
(* the specification's own value of every object of the current program; each *)
(* event applies one public operation to registry entries.  The verdict is    *)
(* total: every event is consumed, and a mismatch between the specified and   *)
(* the recorded outcome is printed with the failing clauses.                  *)
EXTENDS LDisp, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, env

Judge(r, o) ==
  IF o.k = "hang" THEN <<"does-not-return">>
  ELSE IF o.k = "crash" THEN <<"crash">>
  ELSE CASE r.k = "any" -> <<>>
         [] r.k = "err" -> IF o.k = "err" THEN <<>> ELSE <<"must-be-rejected">>
         [] r.k = "arr" -> ArrDiff(r.a, o)
         [] r.k = "arru" -> ArrDiff(IF o.k = "arr" THEN Align(r.a, o.ax) ELSE r.a, o)
         [] r.k = "vals" -> ValDiff(r.a, o)

\* where the specification leaves a value open, the program goes on with the one obtained,
\* if that is a fraction simple enough not to be the chance neighbour of some other number
Settle(x) == IF x[2] <= 1 \/ (x[2] <= 12 /\ Abs(x[1]) <= 20000) THEN x ELSE Open
Adopt(a, o) == IF o.k \in {"arr", "vals"} /\ Len(o.dat) = Len(a.dat) /\ (\E p \in 1..Len(a.dat) : IsOpen(a.dat[p]))
               THEN [a EXCEPT !.dat = [p \in 1..Len(@) |-> IF IsOpen(@[p]) THEN Settle(o.dat[p]) ELSE @[p]]] ELSE a
Init == l = 1 /\ env = <<>>
Step(e) ==
  IF e.op = "begin" THEN env' = <<>>
  ELSE LET r == TLCEval(OpExp(e, env))
           bad == Judge(r, e.obs)
       IN /\ env' = Append(env, IF r.k \in {"arr", "arru"} /\ e.obs.k = "arr" THEN Adopt(Align(r.a, e.obs.ax), e.obs)
                                  ELSE IF r.k \in {"any", "err"} /\ e.obs.k = "arr" THEN [FromObs(e.obs) EXCEPT !.dat = [p \in 1..Len(@) |-> Settle(@[p])]] ELSE r.a)
          /\ bad = <<>> \/ PrintT("@@" \o ToJson([line |-> l, clauses |-> bad, exp |-> r]))
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<l, env>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
