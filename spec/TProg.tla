------------------------------- MODULE TProg -------------------------------
(* Trace specification of progress reports.                                    *)
(*  "replay": a behaviour of MC_Prog done with the real bars; every report and *)
(*     every share's start must be the place Prog gives (see: millionths).     *)
(*  "run": one top-level operation with the log of everything done with bars:  *)
(*     bar: a bar id made from bar par (0: top), given the share lo..hi of the *)
(*     whole (one hundredth of a ten-thousandth); part: also told to be part i *)
(*     of n; upd: bar id told x, the whole then stood at y.  ok: the operation *)
(*     returned.  quiet: it need not report (its result held in memory).       *)
EXTENDS Prog, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
F(b, c) == IF b THEN <<>> ELSE <<c>>
Abs(x) == IF x < 0 THEN -x ELSE x
Near(s, num, den) == Abs(s * den - num * 1000000) <= 2 * den
\* ---- replayed behaviours ----
RBad(e) == F(\A i \in 1..Len(e.hist) : Near(e.seen[i], e.hist[i].num, e.hist[i].den), "place-of-report") \o F(e.last = 1000000, "does-not-end-at-100")
\* ---- logs ----  (whole = 1000000; Tol: rounding of the log)
Tol == 3
Top(g, id) == g.root = id
Bars(log) == {i \in 1..Len(log) : log[i].op = "bar"}
\* state of one pass: bars known (id -> share), last place of every top bar, complaints
RECURSIVE Pass(_, _, _, _, _, _)
\* los, his, roots: sequences by id; lasts: by id of the top bar
Pass(log, i, los, his, pars, lasts) ==
  IF i > Len(log) THEN [bad |-> <<>>, lasts |-> lasts, pars |-> pars]
  ELSE LET e == log[i] IN
    IF e.op = "bar" THEN
      LET r == Pass(log, i + 1, Append(los, e.lo), Append(his, e.hi), Append(pars, e.par), Append(lasts, 0))
          b == IF e.par = 0 THEN F(Abs(e.lo) <= Tol /\ Abs(e.hi - 1000000) <= Tol, "top-bar-is-not-the-whole")
               ELSE F(e.lo >= los[e.par] - Tol /\ e.hi <= his[e.par] + Tol /\ e.lo <= e.hi + Tol, "share-outside-the-share-of-its-maker")
                    \o (IF e.n > 0 THEN F(Abs(e.n * (e.lo - los[e.par]) - e.i * (his[e.par] - los[e.par])) <= Tol * (e.n + 1)
                                          /\ Abs(e.n * (e.hi - los[e.par]) - (e.i + 1) * (his[e.par] - los[e.par])) <= Tol * (e.n + 1), "part-is-not-the-ith-of-n") ELSE <<>>)
      IN [r EXCEPT !.bad = b \o @]
    ELSE
      LET t == e.top
          r == Pass(log, i + 1, los, his, pars, [lasts EXCEPT ![t] = e.y])
          b == F(e.y >= los[e.id] - Tol /\ e.y <= his[e.id] + Tol, "report-outside-its-share")
               \o F(e.y >= 0 /\ e.y <= 1000000, "report-outside-0-100")
               \o F(e.y >= lasts[t] - Tol, "progress-goes-back")
      IN [r EXCEPT !.bad = b \o @]
Distinct(s) == IF Len(s) = 0 THEN <<>> ELSE [k \in 1..1 |-> s[1]] \o SelectSeq(SubSeq(s, 2, Len(s)), LAMBDA c : c # s[1])
Bad(e) ==
  IF e.op = "replay" THEN RBad(e)
  ELSE LET r == Pass(e.log, 1, <<>>, <<>>, <<>>, <<>>)
           tops == {i \in 1..Len(r.pars) : r.pars[i] = 0}
       IN F(e.ok = 1, "operation-fails") \o Distinct(r.bad)
          \o F(e.ok = 0 \/ (e.quiet = 1 /\ \A i \in 1..Len(e.log) : e.log[i].op = "bar") \/ \A t \in tops : r.lasts[t] >= 1000000 - Tol, "does-not-end-at-100")
          \o F(e.ok = 0 \/ e.quiet = 1 \/ tops # {}, "no-progress-reported")
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET bad == Bad(Trace[l]) IN IF bad = <<>> THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, clauses |-> bad]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
