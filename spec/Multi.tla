------------------------------- MODULE Multi --------------------------------
(* A collection of files that hold the timesteps of one dataset.  A file is    *)
(* [d: the date in its name, t: the timesteps it holds], times being integers; *)
(* what a timestep contains is determined by the time alone.                   *)
EXTENDS Integers, Sequences, FiniteSets
Rng(s) == {s[i] : i \in 1..Len(s)}
MaxI(a, b) == IF a < b THEN b ELSE a
Holders(fs, t) == {i \in 1..Len(fs) : t \in Rng(fs[i].t)}
\* the file in which a timestep is looked for: the last whose date is not after it
Own(fs, t) == LET c == {i \in 1..Len(fs) : fs[i].d <= t} IN IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : fs[j].d <= fs[i].d
InPlace(fs, t) == Own(fs, t) # 0 /\ t \in Rng(fs[Own(fs, t)].t)
MustRead(fs, req) == \A i \in 1..Len(req) : InPlace(fs, req[i])
MustFail(fs, req) == \E i \in 1..Len(req) : Holders(fs, req[i]) = {}
\* files in order of their dates
RECURSIVE ByDate(_)
ByDate(fs) == IF fs = <<>> THEN <<>>
  ELSE LET i == CHOOSE i \in 1..Len(fs) : \A j \in 1..Len(fs) : fs[i].d < fs[j].d \/ (fs[i].d = fs[j].d /\ i <= j)
       IN <<fs[i]>> \o ByDate(SubSeq(fs, 1, i - 1) \o SubSeq(fs, i + 1, Len(fs)))
Steady(ts) == \A i \in 2..Len(ts) : ts[i] > ts[i - 1] /\ ts[i] - ts[i - 1] = ts[2] - ts[1]
Delta(ts) == IF Len(ts) < 2 THEN 0 ELSE ts[2] - ts[1]
\* the time axis inferred from the names and from the first and last files
Inferable(fs) ==
  LET f == fs[1] g == fs[Len(fs)]
      dt == MaxI(Delta(f.t), Delta(g.t))
  IN /\ Len(f.t) > 0 /\ Len(g.t) > 0 /\ Steady(f.t) /\ Steady(g.t)
     /\ (MaxI(Len(f.t), Len(g.t)) > 1 => /\ g.t[Len(g.t)] >= f.t[1] /\ (g.t[Len(g.t)] - f.t[1]) % dt = 0)
Inferred(fs) ==
  LET f == fs[1] g == fs[Len(fs)]
      dt == MaxI(Delta(f.t), Delta(g.t))
  IN IF MaxI(Len(f.t), Len(g.t)) = 1 THEN [i \in 1..Len(fs) |-> fs[i].d + (f.t[1] - f.d)]
     ELSE [i \in 1..((g.t[Len(g.t)] - f.t[1]) \div dt + 1) |-> f.t[1] + (i - 1) * dt]
AllSteps(fs) == UNION {Rng(fs[i].t) : i \in 1..Len(fs)}
RECURSIVE Chain(_)
Chain(fs) == IF fs = <<>> THEN <<>> ELSE Head(fs).t \o Chain(Tail(fs))
\* a collection is sound: each file holds exactly the steps of the axis that fall between its date and the next
Sound(fs, ax) == /\ \A i \in 1..Len(ax) : InPlace(fs, ax[i])
                 /\ \A i \in 1..Len(fs) : \A k \in 1..Len(fs[i].t) : Own(fs, fs[i].t[k]) = i /\ fs[i].t[k] \in Rng(ax)
=============================================================================
