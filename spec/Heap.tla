-------------------------------- MODULE Heap --------------------------------
(* Objects and the places they keep their parts in.  An object has parts (its  *)
(* name, its attributes, its plotting attributes, its values, the axes it      *)
(* refers to); a part is held in a cell, and what a user can see of the object *)
(* is what its cells contain.                                                  *)
(*   deriving  puts every part of the result into a cell of its own, except    *)
(*             values and axes, which are never written and may be shared      *)
(*   editing   (by the user) writes one cell of one object                      *)
(*   reading   hands out a fresh cell, or a frozen one: writing to a fresh one  *)
(*             touches nothing, writing to a frozen one is refused              *)
(* Frame: whatever happens, what is seen of every object but the edited one is *)
(* as before.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Parts == <<"n", "at", "pa", "v", "ax">>
Editable == {"n", "at", "pa"}
\* what is seen: the contents of the cells
Seen(o, mem) == [p \in DOMAIN o |-> mem[o[p]]]
\* the change seen from one state (of all objects) to the next obeys the frame:
\* only part f of object t may differ (t = 0: none)
Frame(old, new, t, f) == /\ Len(new) >= Len(old)
                         /\ \A i \in 1..Len(old) : IF i # t THEN new[i] = old[i]
                                                   ELSE \A p \in DOMAIN old[i] : p # f => new[i][p] = old[i][p]
=============================================================================
