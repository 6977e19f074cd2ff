------------------------------- MODULE Blocks -------------------------------
(* Working on an array that is too large for memory: it is broken up into      *)
(* blocks of at most a given number of elements, taken from the fastest-       *)
(* varying axis outwards, and each block is worked on once.                    *)
(*   shape   lengths of the axes                                               *)
(*   grid    for each axis, the lengths of the pieces it is cut into           *)
EXTENDS Integers, Sequences, FiniteSets
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Cut(_, _)
Cut(n, m) == IF n = 0 THEN <<>> ELSE <<Min2(n, m)>> \o Cut(n - Min2(n, m), m)
RECURSIVE Room(_, _)     \* what is left for axis i once the axes behind it are accounted for
Room(shape, lim) == IF shape = <<>> THEN lim ELSE LET r == Room(Tail(shape), lim) IN r \div Min2(r, Head(shape))
Empty(shape) == \E i \in 1..Len(shape) : shape[i] = 0
Grid(shape, lim) == [i \in 1..Len(shape) |-> IF Empty(shape) THEN <<shape[i]>> ELSE Cut(shape[i], Min2(Room(SubSeq(shape, i + 1, Len(shape)), lim), shape[i]))]
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
RECURSIVE Times(_)
Times(s) == IF s = <<>> THEN 1 ELSE Head(s) * Times(Tail(s))
Most(s) == IF s = <<>> THEN 0 ELSE CHOOSE x \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : s[i] <= x
\* ---- what any way of breaking up has to satisfy
Tiles(shape, grid) == Len(grid) = Len(shape) /\ \A i \in 1..Len(shape) : SumTo(grid[i], Len(grid[i])) = shape[i] /\ \A j \in 1..Len(grid[i]) : grid[i][j] > 0 \/ shape[i] = 0
Fits(grid, lim) == Times([i \in 1..Len(grid) |-> Most(grid[i])]) <= lim
Count(grid) == Times([i \in 1..Len(grid) |-> Len(grid[i])])
=============================================================================
