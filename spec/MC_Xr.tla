-------------------------------- MODULE MC_Xr --------------------------------
(* All small shapes and limits: the blocks are worked on one at a time, in any *)
(* order (a scheduler takes them as it likes); seen counts, for each element,  *)
(* how often it has been worked on.                                            *)
EXTENDS Blocks, Json, TLC, Sample
CONSTANTS Dims, Longest, Limit
VARIABLES shape, lim, todo, seen
vars == <<shape, lim, todo, seen>>
RECURSIVE Tup(_, _)
Tup(n, S) == IF n = 0 THEN {<<>>} ELSE {<<x>> \o t : x \in S, t \in Tup(n - 1, S)}
Cells(s) == IF Empty(s) THEN {} ELSE LET F[i \in 0..Len(s)] == IF i = 0 THEN {<<>>} ELSE {Append(t, x) : t \in F[i - 1], x \in 1..s[i]} IN F[Len(s)]
Blocks(g) == LET F[i \in 0..Len(g)] == IF i = 0 THEN {<<>>} ELSE {Append(t, x) : t \in F[i - 1], x \in 1..Len(g[i])} IN F[Len(g)]
In(c, b, g) == \A i \in 1..Len(c) : SumTo(g[i], b[i] - 1) < c[i] /\ c[i] <= SumTo(g[i], b[i])
Init == \E n \in 0..Dims : shape \in Tup(n, 0..Longest) /\ lim \in 1..Limit /\ todo = Blocks(Grid(shape, lim)) /\ seen = [c \in Cells(shape) |-> 0]
Work(b) == todo' = todo \ {b} /\ seen' = [c \in DOMAIN seen |-> seen[c] + (IF In(c, b, Grid(shape, lim)) THEN 1 ELSE 0)] /\ UNCHANGED <<shape, lim>>
\* a serial order stands for them all where there are many blocks
Next == IF Cardinality(todo) <= 4 THEN \E b \in todo : Work(b) ELSE Work(CHOOSE b \in todo : TRUE)
Once == \A c \in DOMAIN seen : seen[c] <= 1
All == todo = {} => \A c \in DOMAIN seen : seen[c] = 1
Sound == Tiles(shape, Grid(shape, lim)) /\ (Empty(shape) \/ Fits(Grid(shape, lim), lim))
\* no more blocks than twice over what the limit asks for on each axis
Whole == (~Empty(shape) /\ Times(shape) <= lim) => Count(Grid(shape, lim)) = 1
Emit == todo = Blocks(Grid(shape, lim)) /\ Emits(Len(shape) * 5 + lim * 3, [shape |-> shape, lim |-> lim]) => PrintT("@G" \o ToJson([shape |-> shape, lim |-> lim, grid |-> Grid(shape, lim)]))
=============================================================================
