-------------------------------- MODULE TView --------------------------------
(* Trace specification of evaluation: a derived variable is a function from      *)
(* positions to values, fixed by its first complete read (the truth register); *)
(* every later read - any request, any memory limit - must agree with it, and  *)
(* the requests it makes of its sources must obey the evaluation machine.      *)
(* Values are integers (scaled); special values are >= 2000000000.             *)
EXTENDS LOps, LView, Json, IOUtils, Functions
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, truth
F(b, c) == IF b THEN <<>> ELSE <<c>>
Close(x, y) == x = y \/ (x < 2000000000 /\ y < 2000000000 /\ Abs(x - y) <= 3)
DatClose(a, b) == Len(a) = Len(b) /\ \A p \in 1..Len(a) : Close(a[p], b[p])
None == [obs |-> [k |-> "none"]]

----------------------------------------------------------------------------
(* requests made of the sources: r = [s |-> source, bx |-> box] *)
Increasing(ix) == \A j \in 2..Len(ix) : ix[j] > ix[j - 1]
ReqBad(e, srcs) ==
  CatAll([q \in 1..Len(e.reqs) |->
    LET r == e.reqs[q] ssh == srcs[r.s].sh
    IN F(Len(r.bx) = Len(ssh) /\ \A i \in 1..Len(ssh) : \A j \in 1..Len(r.bx[i]) : 0 <= r.bx[i][j] /\ r.bx[i][j] < ssh[i], "request-out-of-range")
       \o F(\A i \in 1..Len(r.bx) : Increasing(r.bx[i]), "request-not-strictly-increasing")])
\* the box of source s a read of positions ixs needs: axis i is read whole (0), or where result axis k is requested
Needed(ssh, map, ixs) == [i \in 1..Len(ssh) |-> IF map[i] = 0 THEN {j - 1 : j \in 1..ssh[i]} ELSE VRange(ixs[map[i]])]
Vol(n) == VProd([i \in 1..Len(n) |-> Cardinality(n[i])])
CoverBad(e, srcs, ixs) ==
  CatAll([q \in 1..Len(e.need) |->
    LET nd == e.need[q]
        n == Needed(srcs[nd.s].sh, nd.map, ixs)
        rs == SelectSeq(e.reqs, LAMBDA r : r.s = nd.s)
        cells(r) == BoxPts(r.bx)
        inside == \A j \in 1..Len(rs) : \A i \in 1..Len(n) : VRange(rs[j].bx[i]) \subseteq n[i]
        tot == FoldFunction(+, 0, [j \in 1..Len(rs) |-> BoxSize(rs[j].bx)])
        disjoint == \A j, k \in 1..Len(rs) : j < k => \E i \in 1..Len(n) : VRange(rs[j].bx[i]) \cap VRange(rs[k].bx[i]) = {}
    IN F(inside, "request-not-needed")
       \o (IF nd.once THEN F(tot = Vol(n) /\ (Len(n) = 0 \/ disjoint), "pieces-do-not-cover-exactly-once") ELSE <<>>)
       \o (IF nd.lim > 0 THEN F(\A j \in 1..Len(rs) : BoxSize(rs[j].bx) <= nd.lim
                                    \/ BoxSize(rs[j].bx) = VProd([i \in 1..Len(n) |-> IF i \in VRange(nd.p) THEN Len(rs[j].bx[i]) ELSE 1]), "piece-exceeds-limit") ELSE <<>>)])

----------------------------------------------------------------------------
ReadBad(e, t) ==
  LET a == [ax |-> t.obs.ax, sh |-> t.obs.sh, dat |-> t.obs.dat]
      want == TLCEval(IF e.mode = "get" THEN IGet(a, e.es) ELSE ISel(a, e.es))
      full == Pad(e.es, Len(a.ax))
      ixs == TLCEval([i \in 1..Len(a.ax) |-> Ix(a.sh[i], full[i])])
  IN (IF e.obs.k = "err" THEN <<"raised-error">>
      ELSE IF e.obs.k = "hang" THEN <<"does-not-return">>
      ELSE F(e.obs.sh = want.sh, "shape") \o (IF e.obs.sh = want.sh THEN F(DatClose(want.dat, e.obs.dat), "values-depend-on-the-request") ELSE <<>>)
           \o (IF e.mode = "slice" /\ Len(e.obs.ax) = Len(want.ax) THEN CatAll([i \in 1..Len(want.ax) |-> AxDiff(want.ax[i], e.obs.ax[i])]) ELSE <<>>))
     \o ReqBad(e, t.srcs) \o (IF e.obs.k \in {"err", "hang"} THEN <<>> ELSE CoverBad(e, t.srcs, ixs))
TruthBad(e) ==
  (IF e.obs.k = "err" THEN <<"raised-error">> ELSE IF e.obs.k = "hang" THEN <<"does-not-return">>
   ELSE F(e.obs.sh = Sh(e.obs.ax), "shape-of-values")) \o F(e.built = 0, "building-reads-data") \o ReqBad(e, e.srcs)
----------------------------------------------------------------------------
(* View.loop_mem and View.loop_contiguous: the pieces of one request *)
LoopBad(e) ==
  IF e.obs.k = "err" THEN <<"raised-error">> ELSE IF e.obs.k = "hang" THEN <<"does-not-return">> ELSE
  LET ps == e.obs.pieces
      tot == FoldFunction(+, 0, [j \in 1..Len(ps) |-> BoxSize(ps[j])])
      n == Len(e.req)
      inside == \A j \in 1..Len(ps) : Len(ps[j]) = n /\ \A i \in 1..n : VRange(ps[j][i]) \subseteq VRange(e.req[i])
      disjoint == \A j, k \in 1..Len(ps) : j < k => \E i \in 1..n : VRange(ps[j][i]) \cap VRange(ps[k][i]) = {}
      order == \A j \in 1..Len(ps) : \A i \in 1..n : Increasing(ps[j][i])
  IN F(inside /\ tot = BoxSize(e.req) /\ disjoint, "pieces-do-not-cover-exactly-once")
     \o F(order, "piece-not-in-order")
     \o (IF e.contig THEN F(\A j \in 1..Len(ps) : \A i \in 1..n : \A k \in 2..Len(ps[j][i]) : ps[j][i][k] = ps[j][i][k - 1] + 1, "piece-not-contiguous")
                          \o F(\A j \in 1..Len(ps) : [i \in 1..n |-> Take(e.req[i], e.obs.outs[j][i])] = ps[j], "piece-stored-at-wrong-place")
         ELSE F(\A j \in 1..Len(ps) : BoxSize(ps[j]) <= e.lim \/ BoxSize(ps[j]) = VProd([i \in 1..n |-> IF i - 1 \in VRange(e.p) THEN Len(ps[j][i]) ELSE 1]), "piece-exceeds-limit")
              \o F(\A j \in 1..Len(ps) : \A i \in 1..n : (i - 1 \in VRange(e.p)) => ps[j][i] = e.req[i], "preserved-axis-cut"))
\* a streaming operation (saving, export) over one variable
StreamBad(e) == IF e.obs.k \in {"err", "hang"} THEN <<"raised-error">>
                ELSE ReqBad(e, e.srcs) \o CoverBad(e, e.srcs, <<>>)
----------------------------------------------------------------------------
Init == l = 1 /\ truth = None
Step(e) ==
  LET bad == CASE e.op = "begin" -> <<>>
               [] e.op = "truth" -> TruthBad(e)
               [] e.op = "read" -> IF truth.obs.k = "arr" THEN ReadBad(e, truth) ELSE <<>>
               [] e.op = "loop" -> LoopBad(e)
               [] e.op = "stream" -> StreamBad(e)
  IN /\ truth' = IF e.op = "truth" THEN e ELSE truth
     /\ bad = <<>> \/ PrintT("@@" \o ToJson([line |-> l, clauses |-> bad]))
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<l, truth>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
