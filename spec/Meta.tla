-------------------------------- MODULE Meta --------------------------------
(* What metadata a derived object must carry.  A metadata record has a name    *)
(* nm, units un, attributes at and plot attributes pl, both as sets of         *)
(* <<key, value>> with one value per key; ax tells an axis from a variable.    *)
EXTENDS Integers, Sequences
In(x, s) == \E i \in 1..Len(s) : s[i] = x
\* attributes on which all agree (and which all have)
RECURSIVE Agreed(_)
Agreed(ss) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \cap Agreed(Tail(ss))
Single(ss) == \A i \in 1..Len(ss) : ss[i] = ss[1]
OneOf(ss) == IF Single(ss) THEN ss[1] ELSE ""
NotAxes(ms) == SelectSeq(ms, LAMBDA m : m.ax = 0)
\* several objects (axes have plot attributes of their own kind, which do not count)
Combined(ms) == LET vs == NotAxes(ms)
                IN [ax |-> 0, nm |-> OneOf([i \in 1..Len(ms) |-> ms[i].nm]), un |-> OneOf([i \in 1..Len(ms) |-> ms[i].un]),
                    at |-> Agreed([i \in 1..Len(ms) |-> ms[i].at]), pl |-> IF vs = <<>> THEN {} ELSE Agreed([i \in 1..Len(vs) |-> vs[i].pl])]
\* axes laid end to end
Joined(ms) == [ms[1] EXCEPT !.at = Agreed([i \in 1..Len(ms) |-> ms[i].at]), !.pl = Agreed([i \in 1..Len(ms) |-> ms[i].pl])]
\* ---- names ----
Or(n, d) == IF n = "" THEN d ELSE n
First(s) == SubSeq(s, 1, 1)
Last(s) == SubSeq(s, Len(s), Len(s))
Bracketed(s) == Len(s) > 1 /\ First(s) = "(" /\ Last(s) = ")"
Bare(s) == IF Bracketed(s) THEN SubSeq(s, 2, Len(s) - 1) ELSE s
HasBracket(s) == \E i \in 1..Len(s) : SubSeq(s, i, i) \in {"(", ")"}
RECURSIVE Join(_, _)
Join(ss, sep) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
Simple == {"+", "-", "*", "/"}
\* form: "infix" (sym between), "around" (l, r about), "call" (function sym); ws: operands as
\* written, [v |-> 1, s |-> name] for a variable, [v |-> 0, s |-> text] for a number
OpName(form, sym, l, r, ws) ==
  LET s(i) == IF ws[i].v = 1 THEN Or(ws[i].s, "??") ELSE ws[i].s
      t(i) == IF Len(ws) = 1 THEN Bare(s(i)) ELSE s(i)
      vs == SelectSeq(ws, LAMBDA w : w.v = 1)
  IN CASE form = "around" -> l \o t(1) \o r
       [] form = "call" -> sym \o "(" \o Join([i \in 1..Len(ws) |-> t(i)], ",") \o ")"
       [] OTHER -> IF Len(vs) = 1 /\ sym \in Simple /\ ~HasBracket(vs[1].s) THEN vs[1].s ELSE "(" \o Join([i \in 1..Len(ws) |-> t(i)], sym) \o ")"
\* ---- rules of the operations on one object ----
\* everything is kept
Keeping == {"slice", "select", "squeeze", "transpose", "sorted", "extend", "replace-axes", "rename-axes", "fill", "unfill", "cast", "load", "splittime", "jointime", "removeleap", "dataset", "axis-slice", "axis-sorted"}
\* name and attributes are kept, units are (left) or dropped
Deriving == {"reduce", "smooth", "fft", "interp", "lag", "composite", "flatten"}
Prefix(op) == CASE op \in {"deriv", "diff"} -> "d" [] op = "deriv2" -> "d2" [] op \in {"integrate", "cumsum"} -> "i" [] OTHER -> ""
UnitsOpen(op) == op \in Deriving \/ Prefix(op) # "" \/ op = "clim"
\* e: the event (op and what it needs), ms: the metadata of the operands
Rule(e, ms) ==
  CASE e.op \in Keeping \cup Deriving -> ms[1]
    [] Prefix(e.op) # "" -> [ms[1] EXCEPT !.nm = Prefix(e.op) \o Or(ms[1].nm, "(UnknownVar)")]
    [] e.op = "clim" -> [ms[1] EXCEPT !.nm = IF @ = "" THEN "" ELSE @ \o "_" \o e.over \o "_" \o e.stat]
    [] e.op \in {"rename", "axis-rename"} -> [ms[1] EXCEPT !.nm = e.to]
    [] e.op = "axis-concat" -> Joined(ms)
    [] e.op = "concat" -> Combined(ms)
    [] e.op = "ensemble" -> [Combined(ms) EXCEPT !.nm = ms[1].nm]
    [] OTHER -> [Combined(ms) EXCEPT !.nm = OpName(e.form, e.sym, e.l, e.r, e.ws)]
F(b, c) == IF b THEN <<>> ELSE <<c>>
\* a comparison may come about (and be named) the other way round
Mirror(s) == CASE s = ">" -> "<" [] s = "<" -> ">" [] s = ">=" -> "<=" [] s = "<=" -> ">=" [] OTHER -> s
Comparison(s) == s \in {">", "<", ">=", "<=", "==", "!="}
NameOk(e, ms, w, nm) ==
  CASE e.op = "ensemble" /\ w = "" -> nm \in {"", "var"}   \* members of a dataset are given names
    [] e.op = "ufunc" -> nm = w \/ (e.form = "infix" /\ Comparison(e.sym) /\ Len(e.ws) = 2 /\ nm = OpName("infix", Mirror(e.sym), "", "", <<e.ws[2], e.ws[1]>>))
    [] OTHER -> nm = w
\* got: what was found
Judge(e, ms, got) == LET w == Rule(e, ms)
  IN F(NameOk(e, ms, w.nm, got.nm), "name") \o F(got.un = w.un \/ (UnitsOpen(e.op) /\ got.un = ""), "units") \o F(got.at = w.at, "attributes") \o F(got.pl = w.pl, "plot-attributes")
\* an axis of the result that is, or joins, axes of the operands
AxisOk(how, to, from, got) ==
  CASE how = "same" -> F(\E i \in 1..Len(from) : got.nm = (IF to = "" THEN from[i].nm ELSE to) /\ got.at = from[i].at /\ got.pl = from[i].pl, "axis-metadata")
    [] how = "join" -> LET j == Joined(from) IN F(got.nm = j.nm /\ got.at = j.at /\ got.pl = j.pl, "axis-metadata")
    [] OTHER -> <<>>
=============================================================================
