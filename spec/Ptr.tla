-------------------------------- MODULE Ptr ---------------------------------
(***************************************************************************)
(* Wrappers around a pointer: not_null, observer_ptr and prop_const_ptr.    *)
(* Two wrappers a and b over a buffer of four integers; a position is 1..5  *)
(* (5 is one past the end), 0 is null. Every operation reports a, b and the *)
(* buffer afterwards.                                                       *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Configs, Limit

\* c.lib: 0 not_null of a pointer, 1 observer_ptr, 2 prop_const_ptr, 3 not_null of a pointer class
CInit(c) == [lib |-> c.lib, a |-> c.a, b |-> c.b, d |-> <<11, 12, 13, 14>>, n |-> 0]
Inv(s) == s.a \in 0..5 /\ s.b \in 0..5 /\ (s.lib # 1 => s.a # 0 /\ s.b # 0)
In(i) == i \in 1..4
Kinds(s) == {"set", "null", "copy", "swap", "rd", "wr", "step", "add", "plus", "diff", "cmp", "at", "atw", "hash", "bool", "reset", "release", "out", "then", "else", "tr", "conv"}
Ops(s, k) ==
  IF s.n >= Limit THEN {} ELSE
  CASE k = "set" -> {<<k, i, f>> : i \in 1..5, f \in IF s.lib \in {0, 3} THEN 0..2 ELSE 0..1}
    [] k = "null" -> IF s.lib = 2 THEN {} ELSE {<<k, f>> : f \in 0..1}
    [] k = "copy" -> {<<k, f>> : f \in 0..1}
    [] k = "swap" -> {<<k>>}
    [] k = "rd" -> IF In(s.a) THEN {<<k>>} ELSE {}
    [] k = "wr" -> IF In(s.a) THEN {<<k, f>> : f \in 0..2} ELSE {}
    [] k = "step" -> IF s.lib # 1 THEN {<<k, 1, f>> : f \in IF s.a < 5 THEN 0..1 ELSE {}} \cup {<<k, -1, f>> : f \in IF s.a > 1 THEN 0..1 ELSE {}} ELSE {}
    [] k = "add" -> IF s.lib # 1 THEN {<<k, i - s.a, f>> : i \in 1..5, f \in 0..1} ELSE {}
    [] k = "plus" -> IF s.lib # 1 THEN {<<k, i - s.a, f>> : i \in 1..5, f \in IF s.lib = 2 THEN 0..1 ELSE 0..3} ELSE {}
    [] k = "diff" -> IF s.lib # 1 THEN {<<k>>} ELSE {}
    [] k = "cmp" -> {<<k, f>> : f \in CASE s.lib = 2 -> {0} [] s.lib = 0 -> 0..3 [] OTHER -> 0..2}
    [] k = "at" -> IF s.lib # 1 THEN {<<k, i - s.a, f>> : i \in 1..4, f \in 0..1} ELSE {}
    [] k = "atw" -> IF s.lib # 1 THEN {<<k, i - s.a>> : i \in 1..4} ELSE {}
    [] k = "hash" -> IF s.lib \in {0, 3} THEN {<<k>>} ELSE {}
    [] k \in {"bool", "release"} -> IF s.lib = 1 THEN {<<k>>} ELSE {}
    [] k = "reset" -> IF s.lib = 1 THEN {<<k, i>> : i \in 0..2} ELSE {}
    [] k = "out" -> IF s.lib = 1 THEN {<<k, i>> : i \in {0, 3}} ELSE {}
    [] k \in {"then", "else"} -> IF s.lib = 1 THEN {<<k, f>> : f \in 0..1} ELSE {}
    [] k = "tr" -> IF s.lib = 1 THEN {<<k, f>> : f \in 0..1} ELSE {}
    [] OTHER -> {<<k>>}

R(r, t) == [r |-> r, t |-> t]
Cmp(x, y) == <<B(x = y), B(x # y), B(x < y), B(x <= y), B(x > y), B(x >= y)>>
Eff(s, o) ==
  LET k == o[1] IN
  CASE k = "set" -> R(<<>>, [s EXCEPT !.a = o[2]])
    [] k = "null" -> IF s.lib = 1 THEN R(<<0>>, [s EXCEPT !.a = 0]) ELSE R(<<1>>, s)
    [] k = "copy" -> R(<<>>, [s EXCEPT !.a = s.b])
    [] k = "swap" -> R(<<>>, [s EXCEPT !.a = s.b, !.b = s.a])
    [] k = "rd" -> R(Rep(6, s.d[s.a]), s)
    [] k = "wr" -> R(<<>>, [s EXCEPT !.d[s.a] = 20 + o[2]])
    [] k = "step" -> R(<<IF o[3] = 0 THEN s.a + o[2] ELSE s.a>>, [s EXCEPT !.a = @ + o[2]])
    [] k = "add" -> R(<<s.a + o[2]>>, [s EXCEPT !.a = @ + o[2]])
    [] k = "plus" -> R(<<s.a + o[2]>>, s)
    [] k = "diff" -> R(<<s.a - s.b, s.b - s.a>>, s)
    [] k = "cmp" -> R(Cmp(s.a, s.b), s)
    [] k = "at" -> R(<<s.d[s.a + o[2]]>>, s)
    [] k = "atw" -> R(<<>>, [s EXCEPT !.d[s.a + o[2]] = 30])
    [] k = "hash" -> R(<<1>>, s)
    [] k = "bool" -> R(<<B(s.a # 0)>>, s)
    [] k = "release" -> R(<<s.a>>, [s EXCEPT !.a = 0])
    [] k = "reset" -> R(<<>>, [s EXCEPT !.a = o[2]])
    [] k = "out" -> R(<<s.a>>, [s EXCEPT !.a = o[2]])
    [] k = "then" -> R(IF s.a = 0 THEN <<0, 0>> ELSE <<1, IF o[2] = 0 THEN s.a ELSE 0>>, s)
    [] k = "else" -> R(IF s.a = 0 THEN <<1, IF o[2] = 0 THEN s.b ELSE 0>> ELSE <<0, s.a>>, s)
    [] k = "tr" -> R(<<1, s.a>>, s)
    [] OTHER -> R(<<s.a, s.a>>, s)
Step(s, o) == LET e == Eff(s, o) IN [s |-> [e.t EXCEPT !.n = @ + 1], r |-> e.r \o <<-50, e.t.a, e.t.b>> \o e.t.d]
Expect(s, o) == Step(s, o).r
Post(s, o, r) == IF r = Step(s, o).r THEN {Step(s, o).s} ELSE {}
=============================================================================
