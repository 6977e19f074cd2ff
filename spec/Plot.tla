-------------------------------- MODULE Plot --------------------------------
(* What a plot shows.  A variable is [ax |-> axes, dat |-> values in row-major *)
(* order, s |-> scaling]; an axis is [f |-> family, v |-> coordinates, s |->   *)
(* scaling, o |-> 1 or -1 (plot order)].  Families: "Z" vertical, "Lat",       *)
(* "Lon", "o" other.  Numbers are integers on a common scale; a scaling is     *)
(* <<n, d, b>>: plotted = value * n / d + b; Missing stays missing.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Missing == 2000000000
Scaled(s, x) == IF x = Missing THEN Missing ELSE (x * s[1]) \div s[2] + s[3]
ScaledAll(s, xs) == [i \in 1..Len(xs) |-> Scaled(s, xs[i])]
\* the axes with more than one point
Wide(ax) == SelectSeq(ax, LAMBDA a : Len(a.v) > 1)
\* orientation of two axes: TRUE if the first is the abscissa
FirstAcross(f1, f2) == IF f1 = "Z" THEN (IF f1 = "Lat" /\ f2 = "Lon" THEN TRUE ELSE FALSE)
                       ELSE IF f1 = "Lat" /\ f2 = "Lon" THEN FALSE ELSE TRUE
\* the allowed orientations: asked for nothing, the natural one; asked to transpose,
\* the other one of the natural or of the stored order; asked not to, either
Across(f1, f2, tr) ==
  CASE tr = "none" -> {FirstAcross(f1, f2)}
    [] tr = "yes" -> {~FirstAcross(f1, f2), FALSE}
    [] tr = "no" -> {FirstAcross(f1, f2), TRUE}
\* a surface: abscissae, ordinates, rows of values (one per ordinate)
Surface(v, first) ==
  LET w == Wide(v.ax) a == w[1] b == w[2] n == Len(b.v)
      val(i, j) == Scaled(v.s, v.dat[(i - 1) * n + j])
  IN IF first THEN [x |-> ScaledAll(a.s, a.v), y |-> ScaledAll(b.s, b.v), z |-> [j \in 1..n |-> [i \in 1..Len(a.v) |-> val(i, j)]]]
     ELSE [x |-> ScaledAll(b.s, b.v), y |-> ScaledAll(a.s, a.v), z |-> [i \in 1..Len(a.v) |-> [j \in 1..n |-> val(i, j)]]]
Surfaces(v, tr) == LET w == Wide(v.ax) IN {Surface(v, f) : f \in Across(w[1].f, w[2].f, tr)}
\* a line: the coordinate is across unless it is vertical; transposing exchanges
CoordAcross(f, tr) == (f = "Z") = (tr = "yes")
Line(v, tr) ==
  LET a == Wide(v.ax)[1] c == ScaledAll(a.s, a.v) d == ScaledAll(v.s, v.dat)
  IN IF CoordAcross(a.f, tr) THEN [x |-> c, y |-> d] ELSE [x |-> d, y |-> c]
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Limits(a) == LET c == ScaledAll(a.s, a.v) S == {c[i] : i \in 1..Len(c)}
             IN IF a.o = 1 THEN <<MinOf(S), MaxOf(S)>> ELSE <<MaxOf(S), MinOf(S)>>
\* label and title: the title where one is given, or the name and units; points of the
\* other axes follow.  A text is [has |-> a title is given, title, name, units]
Label(t) == IF t.has THEN t.title ELSE t.name \o (IF t.units # "" THEN " [" \o t.units \o "]" ELSE "")
RECURSIVE Points(_)
Points(ps) == IF ps = <<>> THEN "" ELSE ", " \o Head(ps) \o Points(Tail(ps))
Title(t, ps) == IF t.has THEN t.title ELSE Label(t) \o Points(ps)
\* the older plotvar: the second axis across, but for the same exceptions
OldAcross(f1, f2) == f2 = "Z" \/ (f1 = "Lon" /\ f2 = "Lat")
OldSurface(v) == LET w == Wide(v.ax) IN Surface(v, OldAcross(w[1].f, w[2].f))
\* once around: the first column again, one spacing beyond the last
Around(s) == LET n == Len(s.x) IN [x |-> Append(s.x, s.x[n] + s.x[2] - s.x[1]), y |-> s.y, z |-> [j \in 1..Len(s.y) |-> Append(s.z[j], s.z[j][1])]]
OldUnits(t, a, b) == IF t.units # "" THEN " " \o a \o t.units \o b ELSE ""
OldLabel(t) == (IF t.pn # "" THEN t.pn ELSE IF t.title # "" THEN t.title ELSE t.name) \o OldUnits(t, "[", "]")
OldTitle(t, ps) == (IF t.title # "" THEN t.title ELSE IF t.pn # "" THEN t.pn ELSE t.name) \o OldUnits(t, "(", ")") \o Points(ps)
----------------------------------------------------------------------------
(* contour levels, as integer multiples of one step *)
Ladder(lo, n, step) == [i \in 1..(n + 1) |-> lo + (i - 1) * step]
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
\* filled contours: ndiv divisions of width d (on each side of mid), nf levels and nl lines in each;
\* all numbers in units in which d / nf and d / nl are whole
Clf(p) ==
  LET two == p.style = "div"
      lo == IF p.hasmin THEN p.min ELSE IF two THEN p.mid - p.d * p.ndiv ELSE p.mid - (p.d * p.ndiv) \div 2
      k == IF two THEN 2 * p.ndiv ELSE p.ndiv
      mid == lo + p.d * p.ndiv
      cf == Ladder(lo, p.nf * k, p.d \div p.nf)
      cl == Ladder(lo, p.nl * k, p.d \div p.nl)
  IN [cf |-> IF two THEN Without(cf, mid) ELSE cf,
      cl |-> IF p.nl = 0 THEN <<>> ELSE IF two /\ p.nozero THEN Without(cl, mid) ELSE cl,
      tk |-> Ladder(lo, k, p.d)]
\* line contours; ci > 0: a finer interval between the two lines about zero
Cl(p) ==
  IF p.nozero THEN Without(Ladder(-p.range, (2 * p.range) \div p.d, p.d), 0)
  ELSE IF p.ci > 0 THEN SelectSeq(Ladder(-p.range, p.range \div p.d, p.d), LAMBDA y : y < -p.d) \o Ladder(-p.d, (2 * p.d) \div p.ci, p.ci)
                        \o Ladder(2 * p.d, (p.range \div p.d) - 2, p.d)
  ELSE IF p.hasmin THEN Ladder(p.min, (2 * p.range) \div p.d, p.d)
  ELSE Ladder(p.mid - p.range, (2 * p.range) \div p.d, p.d)
\* logarithmic contours: exponents, nf (nl) per division
Log1(p) == [cf |-> [i \in 1..(p.nf * p.ndiv + 1) |-> i - 1], cl |-> [i \in 1..(p.nl * p.ndiv + 1) |-> i - 1], tk |-> [i \in 1..(p.ndiv + 1) |-> i - 1]]
Increasing(s) == \A i \in 2..Len(s) : s[i - 1] < s[i]
\* two-sided logarithmic contours: level j of n divisions of k is the fraction j / k of the inner
\* boundary up to it (|j| <= k), and |j| / k - 1 powers beyond it
Log2(p, nf, nl) == [cf |-> Without(Ladder(-nf * p.ndiv, 2 * nf * p.ndiv, 1), 0),
  cl |-> IF p.nozero THEN Without(Ladder(-nl * p.ndiv, 2 * nl * p.ndiv, 1), 0) ELSE Ladder(-nl * p.ndiv, 2 * nl * p.ndiv, 1),
  tk |-> Ladder(-p.ndiv, 2 * p.ndiv, 1)]
\* its colour scale: position times 2 n k
Norm2(n, k, j) == n * k + j
\* round contour intervals: the least that covers what is needed with ndiv divisions; units of 1 / 20
Round == {m * t : m \in {2, 3, 4, 6, 8, 10, 12}, t \in {1, 10, 100, 1000, 10000, 100000}}
Guessed(spc, ndiv, need) == /\ spc \in Round /\ spc * ndiv >= need
                            /\ \A c \in Round : c < spc => c * ndiv <= need
----------------------------------------------------------------------------
(* a grid of frames: sz[i][j] is <<width, height>>, or <<>> where there is     *)
(* nothing; each column as wide as its widest, each row as high as its highest, *)
(* each frame in the middle of its cell; rows from the top; twice the lengths   *)
Max0(S) == IF S = {} THEN 0 ELSE MaxOf(S)
ColW(sz, j) == Max0({sz[i][j][1] : i \in {i \in 1..Len(sz) : sz[i][j] # <<>>}})
RowH(sz, i) == Max0({sz[i][j][2] : j \in {j \in 1..Len(sz[i]) : sz[i][j] # <<>>}})
RECURSIVE ColsTo(_, _)
ColsTo(sz, j) == IF j = 0 THEN 0 ELSE ColW(sz, j) + ColsTo(sz, j - 1)
RECURSIVE RowsTo(_, _)
RowsTo(sz, i) == IF i = 0 THEN 0 ELSE RowH(sz, i) + RowsTo(sz, i - 1)
Box(sz, i, j) ==
  LET w == sz[i][j][1] h == sz[i][j][2] H == RowsTo(sz, Len(sz))
      l == 2 * ColsTo(sz, j - 1) + ColW(sz, j) - w
      t == 2 * (H - RowsTo(sz, i - 1)) - (RowH(sz, i) - h)
  IN <<l, t - 2 * h, l + 2 * w, t>>
RECURSIVE BoxesFrom(_, _, _)
BoxesFrom(sz, i, j) == IF i > Len(sz) THEN <<>> ELSE IF j > Len(sz[i]) THEN BoxesFrom(sz, i + 1, 1)
                       ELSE (IF sz[i][j] = <<>> THEN <<>> ELSE <<Box(sz, i, j)>>) \o BoxesFrom(sz, i, j + 1)
Boxes(sz) == BoxesFrom(sz, 1, 1)
----------------------------------------------------------------------------
(* the text of a coordinate: hemisphere and sign; the number within the        *)
(* precision of the format; values in units of 1 / 10000                        *)
U == 10000
Abs(x) == IF x < 0 THEN -x ELSE x
Wrap(x, top) == LET m == 360 * U y == x - (top - 360 * U) IN (y % m) + (top - 360 * U)
\* what is printed: [v |-> number, h |-> hemisphere, d |-> printed as a whole number]
Shown(e) ==
  CASE e.f = "Lat" /\ e.hemi -> IF e.v = 0 THEN [v |-> 0, h |-> "EQ", d |-> FALSE] ELSE [v |-> Abs(e.v), h |-> IF e.v > 0 THEN "N" ELSE "S", d |-> FALSE]
    [] e.f = "Lon" /\ e.hemi -> LET w == Wrap(e.v, e.top) IN [v |-> Abs(w), h |-> IF w >= 0 THEN "E" ELSE "W", d |-> FALSE]
    [] e.f = "Pres" /\ e.brk > 0 /\ e.v >= e.brk -> [v |-> e.v, h |-> "", d |-> TRUE]
    [] OTHER -> [v |-> e.v, h |-> "", d |-> FALSE]
Pow10(n) == IF n <= 0 THEN 1 ELSE IF n = 1 THEN 10 ELSE IF n = 2 THEN 100 ELSE IF n = 3 THEN 1000 ELSE IF n = 4 THEN 10000 ELSE IF n = 5 THEN 100000 ELSE IF n = 6 THEN 1000000 ELSE IF n = 7 THEN 10000000 ELSE 100000000
Digits(x) == CHOOSE n \in 1..9 : x < Pow10(n) /\ (n = 1 \/ x >= Pow10(n - 1))
\* twice the largest deviation the format allows
Loose(c, p, x) == IF x = 0 THEN 0 ELSE CASE c = "g" -> IF Digits(x) <= p THEN 0 ELSE Pow10(Digits(x) - p)
                    [] c = "f" -> Pow10(4 - p) [] OTHER -> 0
Reads(e, num) ==
  LET s == Shown(e) a == Abs(s.v) IN
  IF s.h = "EQ" THEN num = 0
  ELSE IF s.d \/ e.c = "d" THEN num = (IF s.v < 0 THEN -1 ELSE 1) * (a \div U) * U
  ELSE 2 * Abs(num - s.v) <= Loose(e.c, e.p, a)
Suffix(e) == Shown(e).h \o (IF e.units /\ e.unitstr # "" THEN " " \o e.unitstr ELSE "")
=============================================================================
