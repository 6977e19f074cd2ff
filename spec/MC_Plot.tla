------------------------------- MODULE MC_Plot -------------------------------
(* Laws of plots: every small variable, every pair of families, every request. *)
EXTENDS Plot, Json, Sample
CONSTANTS MaxN, SampleOf
VARIABLES v, tr, p, x
vars == <<v, tr, p, x>>
Fam == {"Z", "Lat", "Lon", "o"}
S0 == {<<1, 1, 0>>, <<-1, 2, 3>>}
Axs(n, k) == {[f |-> f, v |-> [i \in 1..n |-> 8 * i + k], s |-> s, o |-> o] : f \in Fam, s \in S0, o \in {1, -1}}
Lad == {[style |-> st, hasmin |-> h, min |-> m, mid |-> m, d |-> 12 * d, nf |-> nf, nl |-> nl, ndiv |-> nd, nozero |-> z, range |-> 12 * d * nd, ci |-> ci] :
         st \in {"div", "seq"}, h \in BOOLEAN, m \in {-24, 12}, d \in {1, 2}, nf \in {1, 2, 6}, nl \in {1, 2}, nd \in {2, 4}, z \in BOOLEAN, ci \in {0, 4}}
Init == /\ \E m, n \in 2..MaxN : \E a \in Axs(m, 0) : \E b \in {y \in Axs(n, 4) : y.s = <<1, 1, 0>> /\ y.o = 1} : \E s \in S0 :
             v = [ax |-> <<a, b>>, s |-> s, dat |-> [i \in 1..(m * n) |-> IF i = 2 THEN Missing ELSE 10 * i]]
        /\ tr \in {"none", "yes", "no"} /\ p \in {CHOOSE q \in Lad : TRUE} /\ x = 0
Next == x = 0 /\ x' = 1 /\ UNCHANGED <<v, tr>> /\ p' \in (IF tr = "none" /\ v.s = <<1, 1, 0>> /\ Len(v.dat) = 4 /\ v.ax[1].f = "o" THEN Lad ELSE {p})
Spec == Init /\ [][Next]_vars
\* the picture as a set of marks
Marks(s) == {<<s.x[i], s.y[j], s.z[j][i]>> : i \in 1..Len(s.x), j \in 1..Len(s.y)}
Flip(M) == {<<m[2], m[1], m[3]>> : m \in M}
Want(first) == LET a == v.ax[1] b == v.ax[2] n == Len(b.v)
                   M == {<<Scaled(a.s, a.v[i]), Scaled(b.s, b.v[j]), Scaled(v.s, v.dat[(i - 1) * n + j])>> : i \in 1..Len(a.v), j \in 1..n}
               IN IF first THEN M ELSE Flip(M)
Complete == \A f \in BOOLEAN : Marks(Surface(v, f)) = Want(f) /\ Cardinality(Marks(Surface(v, f))) = Len(v.dat)
Turned == Marks(Surface(v, TRUE)) = Flip(Marks(Surface(v, FALSE)))
Upright == /\ v.ax[1].f = "Z" /\ v.ax[2].f # "Z" => Across("Z", v.ax[2].f, "none") = {FALSE}
           /\ v.ax[2].f = "Z" /\ v.ax[1].f # "Z" => Across(v.ax[1].f, "Z", "none") = {TRUE}
           /\ {v.ax[1].f, v.ax[2].f} = {"Lon", "Lat"} => Across(v.ax[1].f, v.ax[2].f, "none") = {v.ax[1].f = "Lon"}
\* the older routine draws the same marks, across or not; around, it adds one column and no other value
Older == LET s == OldSurface(v) r == Around(s) IN
           /\ Marks(s) \in {Want(TRUE), Want(FALSE)}
           /\ Marks(s) \subseteq Marks(r) /\ Cardinality(Marks(r) \ Marks(s)) = Len(s.y)
           /\ \A k \in Marks(r) \ Marks(s) : \E q \in Marks(s) : q[2] = k[2] /\ q[3] = k[3] /\ q[1] = s.x[1]
Hidden == \A f \in BOOLEAN : Cardinality({m \in Marks(Surface(v, f)) : m[3] = Missing}) = 1
Framed == LET l == Limits(v.ax[1]) c == ScaledAll(v.ax[1].s, v.ax[1].v) IN
            \A i \in 1..Len(c) : MinOf({l[1], l[2]}) <= c[i] /\ c[i] <= MaxOf({l[1], l[2]}) /\ (l[1] < l[2] <=> v.ax[1].o = 1)
Ladders == x = 1 => LET r == Clf(p) c == Cl(p) IN
             /\ Increasing(r.cf) /\ Increasing(r.cl) /\ Increasing(r.tk) /\ Increasing(c)
             /\ r.cf[1] = r.tk[1] /\ r.cf[Len(r.cf)] = r.tk[Len(r.tk)]
             /\ (p.nl > 0 => r.cl[1] = r.tk[1] /\ r.cl[Len(r.cl)] = r.tk[Len(r.tk)])
             /\ (p.style = "div" /\ ~p.hasmin => \A i \in 1..Len(r.cf) : r.cf[i] - p.mid = p.mid - r.cf[Len(r.cf) + 1 - i])
             /\ (p.ci > 0 => c[1] = -p.range /\ c[Len(c)] = p.range /\ \A i \in 1..Len(c) : \E j \in 1..Len(c) : c[j] = -c[i])
             /\ (p.nozero => \A i \in 1..Len(c) : c[i] # 0)
\* the two-sided logarithmic ladder and its colours
Coloured == x = 1 => LET r == Log2(p, p.nf, p.nl) IN
             /\ Increasing(r.cf) /\ Increasing(r.cl) /\ Increasing(r.tk)
             /\ Norm2(p.ndiv, p.nf, r.cf[1]) = 0 /\ Norm2(p.ndiv, p.nf, r.cf[Len(r.cf)]) = 2 * p.ndiv * p.nf
             /\ \A i \in 1..Len(r.cf) : Norm2(p.ndiv, p.nf, r.cf[i]) + Norm2(p.ndiv, p.nf, r.cf[Len(r.cf) + 1 - i]) = 2 * p.ndiv * p.nf
\* there is just one round interval for anything to be covered, but on a boundary
Rounded == x = 1 => \A need \in {100, 113, 120, 160, 177, 200, 249, 240, 301, 399} : LET S == {c \in Round : Guessed(c, p.ndiv, need)} IN
             S # {} /\ (Cardinality(S) > 1 => \E c \in S : c * p.ndiv = need)
\* texts: every place of the globe is named once per turn, the number and the hemisphere give it back
Texts == \A d \in -12..24 : LET la == Shown([f |-> "Lat", hemi |-> TRUE, v |-> d * 15 * U]) IN
           /\ (IF la.h = "S" THEN -la.v ELSE la.v) = d * 15 * U
           /\ \A top \in {180, 360} : LET lo == Shown([f |-> "Lon", hemi |-> TRUE, v |-> d * 15 * U, top |-> top * U]) w == IF lo.h = "W" THEN -lo.v ELSE lo.v IN
                (w - d * 15 * U) % (360 * U) = 0 /\ w < top * U /\ w >= (top - 360) * U
\* frames of a grid keep apart, inside the whole
Cells == {<<>>, <<2, 3>>, <<5, 1>>, <<3, 4>>}
Apart(a, b) == a[3] <= b[1] \/ b[3] <= a[1] \/ a[4] <= b[2] \/ b[4] <= a[2]
ASSUME \A sz \in [1..2 -> [1..3 -> Cells]] : LET b == Boxes(sz) IN
         /\ \A i \in 1..Len(b) : b[i][1] >= 0 /\ b[i][2] >= 0 /\ b[i][3] <= 2 * ColsTo(sz, 3) /\ b[i][4] <= 2 * RowsTo(sz, 2) /\ b[i][1] < b[i][3] /\ b[i][2] < b[i][4]
         /\ \A i \in 1..Len(b), j \in 1..Len(b) : i < j => Apart(b[i], b[j])
Emit == x = 0 /\ Emits(SampleOf, <<v, tr>>) => PrintT("@G" \o ToJson([ax |-> v.ax, s |-> v.s, tr |-> tr]))
=============================================================================
