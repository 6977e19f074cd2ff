------------------------------- MODULE THeap -------------------------------
(* Trace specification of immutability: after every recorded operation the     *)
(* whole pool is observed again and must obey the frame condition of Heap.     *)
(* An event carries st, the parts seen of every object: [k |-> kind, s |->     *)
(* parts]; t and f tell the object and part the user edits (t = 0: none).      *)
EXTENDS Heap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, heap
F(b, c) == IF b THEN <<>> ELSE <<c>>
PartNames(k) == CASE k = "var" -> <<"name", "attributes", "plot-attributes", "values", "axes", "kind">>
                  [] k = "axis" -> <<"name", "attributes", "plot-attributes", "coordinates", "associated-arrays", "tolerance">>
                  [] k = "dataset" -> <<"members", "attributes", "axes">>
                  [] k = "class" -> <<"class-attributes", "class-plot-attributes">>
                  [] OTHER -> <<"argument">>
Changed(i, old, new, t, f) == SelectSeq([p \in 1..Len(old.s) |-> IF new.s[p] # old.s[p] /\ ~(i = t /\ p = f) THEN old.k \o ":" \o PartNames(old.k)[p] \o "-changed" ELSE ""], LAMBDA c : c # "")
RECURSIVE Flat2(_)
Flat2(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat2(Tail(ss))
Bad(e) ==
  LET new == [i \in 1..Len(e.st) |-> e.st[i].s] old == [i \in 1..Len(heap) |-> heap[i].s]
      ok == Len(new) >= Len(old) /\ \A i \in 1..Len(heap) : heap[i].k = e.st[i].k
  IN IF e.hang = 1 THEN <<"does-not-return">> ELSE F(ok, "pool-lost-objects")
     \o (IF ok /\ ~Frame(old, new, e.t, e.f) THEN Flat2([i \in 1..Len(heap) |-> Changed(i, heap[i], e.st[i], e.t, e.f)]) ELSE <<>>)
     \o (IF ok /\ e.op = "edit" /\ e.t > 0 THEN F(new[e.t][e.f] = e.want, "edit-not-taken") ELSE <<>>)
     \o (IF ok /\ e.op = "read" /\ e.t = 0 THEN F(e.got = old[e.h][4], "read-differs-from-earlier-read") ELSE <<>>)
Init == l = 1 /\ heap = <<>>
Step(e) ==
  IF e.op = "begin" THEN heap' = e.st
  ELSE LET bad == Bad(e) IN /\ IF bad = <<>> THEN TRUE ELSE PrintT("@@" \o ToJson([line |-> l, clauses |-> bad]))
                            /\ heap' = e.st
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_<<l, heap>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
