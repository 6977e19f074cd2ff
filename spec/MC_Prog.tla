------------------------------ MODULE MC_Prog ------------------------------
(* All ways in which a computation of nested pieces may report its progress:   *)
(* a piece with a bar either works by itself (reports that grow), or hands     *)
(* equal parts (a loop) or unequal shares (several operands) of its bar to     *)
(* pieces done one after another, and reports 100 at its end.  frames is the   *)
(* stack of unfinished pieces.  Careless pieces hand their whole bar to each   *)
(* of several pieces: with Careless = TRUE the properties fail.                *)
EXTENDS Prog, FiniteSets, Json, TLC, Sample
CONSTANTS MaxDepth, MaxSteps, Careless, SampleOf
VARIABLES frames, made, y, hist
vars == <<frames, made, y, hist>>
Cuts == {<<0, 50, 100>>, <<0, 20, 100>>, <<0, 70, 90, 100>>, <<0, 0, 100>>, <<30, 80>>}
\* x: what the piece has reported of its own; plan: shares still to be handed out
Frame(id, bar) == [id |-> id, bar |-> bar, x |-> 0, plan |-> <<>>]
Init == frames = <<Frame(1, Whole)>> /\ made = 1 /\ y = <<0, 1>> /\ hist = <<>>
Top == frames[Len(frames)]
Say(x) == LET p == Place(Top.bar, <<x, 100>>) IN y' = p /\ hist' = Append(hist, [op |-> "update", bar |-> Top.id, i |-> x, n |-> 0, num |-> p[1], den |-> p[2]])
Plan(ss, from) == frames' = [frames EXCEPT ![Len(frames)].plan = ss]
Report == Top.plan = <<>> /\ (\E x \in {25, 50, 80} : x > Top.x /\ Say(x) /\ frames' = [frames EXCEPT ![Len(frames)].x = x]) /\ UNCHANGED made
Loop == /\ Top.plan = <<>> /\ Top.x = 0 /\ Len(frames) < MaxDepth
        /\ \/ \E n \in 1..3 : Plan([i \in 1..n |-> [op |-> "part", i |-> i - 1, n |-> n]], 0)
           \/ \E c \in Cuts : Plan([i \in 1..Len(c) - 1 |-> [op |-> "subset", i |-> c[i], n |-> c[i + 1]]], 0)
           \/ Careless /\ Plan(<<[op |-> "subset", i |-> 0, n |-> 100], [op |-> "subset", i |-> 0, n |-> 100]>>, 0)
        /\ UNCHANGED <<made, y, hist>>
Enter == /\ Top.plan # <<>>
         /\ LET s == Head(Top.plan)
                bar == IF s.op = "part" THEN Part(Top.bar, s.i, s.n) ELSE Sub(Top.bar, s.i, s.n)
            IN frames' = Append([frames EXCEPT ![Len(frames)].plan = Tail(@), ![Len(frames)].x = 99], Frame(made + 1, bar))
               /\ hist' = Append(hist, [op |-> s.op, bar |-> Top.id, i |-> s.i, n |-> s.n, num |-> bar.a[1], den |-> bar.a[2]])
         /\ made' = made + 1 /\ UNCHANGED y
Finish == Top.plan = <<>> /\ Say(100) /\ frames' = SubSeq(frames, 1, Len(frames) - 1) /\ UNCHANGED made
Next == frames # <<>> /\ (Finish \/ (Len(hist) < MaxSteps /\ (Report \/ Loop \/ Enter)))
Spec == Init /\ [][Next]_vars
Confined == /\ \A i \in 2..Len(frames) : Within(frames[i].bar, frames[i - 1].bar)
            /\ In(y, Whole)
\* while a piece is at work every report lies in its share or before it
Shares == frames = <<>> \/ QLe(y, Top.bar.b)
Ends == frames = <<>> => y = <<1, 1>>
Monotone == [][QLe(y, y')]_vars
Emit == frames = <<>> /\ Emits(SampleOf, hist) => PrintT("@G" \o ToJson([hist |-> hist]))
=============================================================================
