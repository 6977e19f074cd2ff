------------------------------ MODULE MC_Meta ------------------------------
(* Programs of derivations and writes over a heap of attribute containers:     *)
(* each object refers to a cell; what it carries is what its cell holds.       *)
(* The value of an object by the rules alone is kept beside it (val): they     *)
(* must agree whatever is written, which they do as no cell is shared.  With   *)
(* Careless = TRUE a derivation may reuse its source's cell and Carried fails. *)
EXTENDS Meta, FiniteSets, Json, TLC, Sample
CONSTANTS MaxObj, MaxSteps, Careless, SampleOf
VARIABLES cell, heap, val, nm, hist
vars == <<cell, heap, val, nm, hist>>
Keys == {"a", "b"}
Vals == {1, 2}
Att(k, v) == <<k, v>>
Put(s, k, v) == {p \in s : p[1] # k} \cup {Att(k, v)}
Cut(s, k) == {p \in s : p[1] # k}
N == Len(cell)
M(i) == [ax |-> 0, nm |-> nm[i], un |-> "", at |-> val[i], pl |-> {}]
Meta(n, s) == [ax |-> 0, nm |-> n, un |-> "", at |-> s, pl |-> {}]
Seqs(s) == LET f[r \in SUBSET s] == IF r = {} THEN <<>> ELSE LET x == CHOOSE y \in r : TRUE IN <<<<x[1], x[2]>>>> \o f[r \ {x}] IN f[s]
Starts1 == {{}, {Att("a", 1)}, {Att("a", 1), Att("b", 2)}}
Starts2 == {{Att("a", 1)}, {Att("a", 2)}, {Att("a", 1), Att("b", 1)}}
Init == \E s \in Starts1, t \in Starts2 : cell = <<1, 2>> /\ heap = <<s, t>> /\ val = <<s, t>> /\ nm = <<"p", "q">> /\ hist = <<[op |-> "new", at |-> Seqs(s)], [op |-> "new", at |-> Seqs(t)]>>
New(e, src, m) == /\ N < MaxObj
                  /\ val' = Append(val, m.at) /\ nm' = Append(nm, m.nm) /\ hist' = Append(hist, e)
                  /\ \/ cell' = Append(cell, Len(heap) + 1) /\ heap' = Append(heap, m.at)
                     \/ Careless /\ heap[cell[src]] = m.at /\ cell' = Append(cell, cell[src]) /\ UNCHANGED heap
Derive(i, op) == New([op |-> op, i |-> i, j |-> 0], i, Rule([op |-> op, to |-> "r"], <<M(i)>>))
Combine(i, j) == New([op |-> "infix", i |-> i, j |-> j], i, Rule([op |-> "infix", form |-> "infix", sym |-> "+", l |-> "", r |-> "", ws |-> <<[v |-> 1, s |-> nm[i]], [v |-> 1, s |-> nm[j]]>>], <<M(i), M(j)>>))
Write(i, k, v) == /\ hist' = Append(hist, [op |-> "write", i |-> i, k |-> k, v |-> v]) /\ UNCHANGED <<cell, nm>>
                  /\ heap' = [heap EXCEPT ![cell[i]] = IF v = 0 THEN Cut(@, k) ELSE Put(@, k, v)]
                  /\ val' = [val EXCEPT ![i] = IF v = 0 THEN Cut(@, k) ELSE Put(@, k, v)]
Next == /\ Len(hist) < MaxSteps
        /\ \/ \E i \in 1..N, op \in {"slice", "rename"} : Derive(i, op)
           \/ \E i, j \in 1..N : Combine(i, j)
           \/ \E i \in 1..N, k \in Keys, v \in {0, 2} : Write(i, k, v)
Spec == Init /\ [][Next]_vars
Carried == \A i \in 1..N : heap[cell[i]] = val[i]
Owned == Cardinality({cell[i] : i \in 1..N}) = N
OneValue == \A i \in 1..N : \A p, q \in val[i] : p[1] = q[1] => p = q
\* combining: order does not matter, an object with itself is itself, and all parts are found in each
Laws == \A i, j \in 1..N : /\ Combined(<<M(i), M(j)>>).at = Combined(<<M(j), M(i)>>).at
                           /\ Combined(<<M(i), M(i)>>) = M(i)
                           /\ Combined(<<M(i), M(j)>>).at \subseteq val[i]
                           /\ \A k \in 1..N : Combined(<<Combined(<<M(i), M(j)>>), M(k)>>).at = Combined(<<M(i), M(j), M(k)>>).at
Names == /\ OpName("infix", "+", "", "", <<[v |-> 1, s |-> "T"], [v |-> 0, s |-> "1"]>>) = "T"
         /\ OpName("infix", "**", "", "", <<[v |-> 0, s |-> "2"], [v |-> 1, s |-> "T"]>>) = "(2**T)"
         /\ OpName("infix", "-", "", "", <<[v |-> 0, s |-> "1"], [v |-> 1, s |-> "(T*U)"]>>) = "(1-(T*U))"
         /\ OpName("around", "", "|", "|", <<[v |-> 1, s |-> "(T*U)"]>>) = "|T*U|"
         /\ OpName("call", "sqrt", "", "", <<[v |-> 1, s |-> ""]>>) = "sqrt(??)"
\* the same objects reached in another way
V == <<cell, heap, val, nm, Len(hist)>>
Emit == Len(hist) = MaxSteps /\ Emits(SampleOf, hist) => PrintT("@G" \o ToJson([hist |-> hist]))
=============================================================================
