------------------------------ MODULE MC_Heap ------------------------------
(* All histories of a few actions over a few objects, with the sharing a       *)
(* derivation is allowed made explicit.  Shares \subseteq Parts: the parts a   *)
(* derivation may share (a larger set breaks the frame: see MC_Heap_bad.cfg).  *)
EXTENDS Heap, Json, Sample
CONSTANTS Shares, MaxObj, MaxSteps, SampleOf
VARIABLES objs, mem, arrs, hist
vars == <<objs, mem, arrs, hist>>
P == {"n", "at", "pa", "v", "ax"}
AllSeen == [i \in 1..Len(objs) |-> Seen(objs[i], mem)]
New(c) == Len(mem) + c
Init == /\ objs = <<[n |-> 1, at |-> 2, pa |-> 3, v |-> 4, ax |-> 5]>> /\ mem = <<0, 0, 0, 0, 0>> /\ arrs = <<>> /\ hist = <<>>
Order == <<"n", "at", "pa", "v", "ax">>
\* an object from one or two others: each part shared with the first, or a copy in a new cell
Derive(S) == /\ Len(objs) < MaxObj
             /\ \E sh \in SUBSET Shares :
                  LET src == objs[CHOOSE i \in S : \A j \in S : i <= j]
                      fresh == SelectSeq(Order, LAMBDA p : p \notin sh)
                      at(p) == CHOOSE q \in 1..Len(fresh) : fresh[q] = p
                  IN /\ objs' = Append(objs, [p \in P |-> IF p \in sh THEN src[p] ELSE Len(mem) + at(p)])
                     /\ mem' = mem \o [q \in 1..Len(fresh) |-> mem[src[fresh[q]]]]
             /\ UNCHANGED arrs /\ hist' = Append(hist, [op |-> IF Cardinality(S) = 1 THEN "derive" ELSE "combine", a |-> CHOOSE i \in S : \A j \in S : i <= j, b |-> CHOOSE i \in S : \A j \in S : j <= i, f |-> ""])
Edit(i, f) == mem' = [mem EXCEPT ![objs[i][f]] = @ + 1] /\ UNCHANGED <<objs, arrs>> /\ hist' = Append(hist, [op |-> "edit", a |-> i, b |-> i, f |-> f])
\* arrays handed out: fresh copies
Read(i) == mem' = Append(mem, mem[objs[i].v]) /\ arrs' = Append(arrs, Len(mem) + 1) /\ UNCHANGED objs /\ hist' = Append(hist, [op |-> "read", a |-> i, b |-> i, f |-> ""])
Write == arrs # <<>> /\ mem' = [mem EXCEPT ![arrs[Len(arrs)]] = @ + 1] /\ UNCHANGED <<objs, arrs>> /\ hist' = Append(hist, [op |-> "write", a |-> 0, b |-> 0, f |-> ""])
Fail(i) == UNCHANGED <<objs, mem, arrs>> /\ hist' = Append(hist, [op |-> "fail", a |-> i, b |-> i, f |-> ""])
Next == /\ Len(hist) < MaxSteps
        /\ \E i \in 1..Len(objs) : \/ Derive({i}) \/ (\E j \in 1..Len(objs) : i < j /\ Derive({i, j})) \/ (\E f \in Editable : Edit(i, f)) \/ Read(i) \/ Fail(i)
           \/ Write
\* the frame condition, over every step
Edited == IF hist' # hist /\ hist'[Len(hist')].op = "edit" THEN hist'[Len(hist')].a ELSE 0
FrameOk == Frame(AllSeen, AllSeen', Edited, IF Edited = 0 THEN "" ELSE hist'[Len(hist')].f)
Framed == [][FrameOk]_vars
Spec == Init /\ [][Next]_vars
\* one representative of the histories that differ in sharing alone
Emit == Len(hist) = MaxSteps /\ Emits(SampleOf, hist) => PrintT("@G" \o ToJson([hist |-> hist]))
=============================================================================
