------------------------------ MODULE MC_Multi ------------------------------
(* A read of a multi-file variable visits the files its times belong to, in    *)
(* runs, and takes from each file whatever it holds of the request.  Whatever  *)
(* the division into files, whatever is missing or misplaced, in whatever      *)
(* order the files are listed: never a value of another time, success when     *)
(* each time is in its file, failure when one is in none.                      *)
EXTENDS Multi, Json, TLC, Sample
CONSTANTS N, GONE, REQ, LAGS
VARIABLES cuts, gone, moved, lag, fs, listed, req, pos, out, st
vars == <<cuts, gone, moved, lag, fs, listed, req, pos, out, st>>
Step(k) == 3 * k
\* the first step of every file
Starts == {1} \cup cuts
FileOf(k) == Cardinality({c \in Starts : c <= k})
NF == Cardinality(Starts)
First(i) == CHOOSE c \in Starts : Cardinality({b \in Starts : b <= c}) = i
\* file i after the faults: steps that are gone left out, one step perhaps put in the file after it
HeldBy(i) == SelectSeq([k \in 1..N |-> k], LAMBDA k : k \notin gone /\ (IF k = moved THEN FileOf(k) + 1 ELSE FileOf(k)) = i)
Tile == [i \in 1..NF |-> [d |-> Step(First(i)) - lag, t |-> [k \in 1..Len(HeldBy(i)) |-> Step(HeldBy(i)[k])]]]
\* the order in which the files are listed
Turned(t, p) == [i \in 1..Len(t) |-> t[((i - 1 + p) % Len(t)) + 1]]
Fs == fs
Axis == Inferred(Fs)
Reqs == UNION {[1..n -> 1..N] : n \in 1..REQ} \cup {[k \in 1..N |-> k], [k \in 1..N |-> N + 1 - k]}
Init == /\ cuts \in SUBSET (2..N) /\ gone \in {g \in SUBSET (1..N) : Cardinality(g) <= GONE} /\ lag \in LAGS
        /\ moved \in {0} \cup {k \in 1..N : k \notin gone /\ \E c \in cuts : c > k}
        /\ (\E p \in 0..2 : listed = Turned(Tile, p)) /\ fs = ByDate(listed) /\ req \in Reqs /\ pos = 0 /\ out = [i \in 1..Len(req) |-> 0] /\ st = "read"
Times == [i \in 1..Len(req) |-> Step(req[i])]
\* one run of requested times with the same file
Run == LET i0 == pos + 1
           o == Own(Fs, Times[i0])
           last == CHOOSE j \in i0..Len(req) : (\A q \in i0..j : Own(Fs, Times[q]) = o) /\ (j = Len(req) \/ Own(Fs, Times[j + 1]) # o)
       IN /\ pos' = last
          /\ LET file == IF o = 0 THEN Fs[Len(Fs)] ELSE Fs[o]
                 hit == {q \in 1..Len(req) : Times[q] \in Rng(file.t)}
             IN IF hit = {} THEN st' = "failed" /\ UNCHANGED out
                ELSE out' = [q \in 1..Len(req) |-> IF q \in hit THEN file.t[CHOOSE k \in 1..Len(file.t) : file.t[k] = Times[q]] ELSE out[q]] /\ UNCHANGED st
Finish == st' = (IF \E q \in 1..Len(req) : out[q] = 0 THEN "failed" ELSE "ok") /\ UNCHANGED <<pos, out>>
Next == /\ st = "read" /\ (IF pos < Len(req) THEN Run ELSE Finish)
        /\ UNCHANGED <<cuts, gone, moved, lag, fs, listed, req>>
NeverAnother == \A q \in 1..Len(req) : out[q] \in {0, Times[q]}
Decided == /\ (st = "ok" => ~MustFail(Fs, Times)) /\ (st = "failed" => ~MustRead(Fs, Times))
           /\ (MustRead(Fs, Times) => ~MustFail(Fs, Times))
\* (files of one step at both ends are taken to mean one step per file throughout)
Typical == MaxI(Len(Fs[1].t), Len(Fs[Len(Fs)].t)) > 1 \/ \A i \in 1..Len(Fs) : Len(Fs[i].t) = 1
Undivided == (pos = 0 /\ gone = {} /\ moved = 0) =>
  /\ st # "failed" /\ MustRead(Fs, Times) /\ Chain(Fs) = [k \in 1..N |-> Step(k)]
  /\ (Typical => Axis = Chain(Fs) /\ Sound(Fs, Axis))
\* the order of listing does not matter
AnyOrder == pos = 0 => Fs = Tile
\* a fault is seen by some read, or the axis ends early
Noticed == (pos = 0 /\ gone # {} /\ Inferable(Fs)) => (~Sound(Fs, Axis) \/ ~(\E k \in gone : Step(k) \in Rng(Axis)))
Misplaced == (pos = 0 /\ moved # 0 /\ Inferable(Fs)) => ~Sound(Fs, Axis)
Emit == st \in {"ok", "failed"} /\ Emits(150, vars) => PrintT("@G" \o ToJson([n |-> N, files |-> listed, req |-> Times, res |-> st]))
=============================================================================
