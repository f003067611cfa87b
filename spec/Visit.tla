------------------------------- MODULE Visit -------------------------------
(***************************************************************************)
(* Two variants of n alternatives: x holds alternative x.i (-1: valueless) *)
(* with value x.v. Every alternative is a type of its own.                 *)
(*   t = "std"   std::variant                                              *)
(*   t = "adlif" a class with get_if and get found by argument lookup and  *)
(*               without variant_npos                                      *)
(*   t = "adlget" a class with only get found by argument lookup           *)
(* A visit reports <<threw, handler, index, value, category, calls>>:      *)
(* handler 100 is the catch-all, h < 100 the one for alternative h;        *)
(* category 0 lvalue, 1 const lvalue, 2 rvalue, 3 const rvalue.            *)
(* A handler that sees a mutable lvalue sets it to 10 + v % 10, one that sees a     *)
(* mutable rvalue takes the value (leaves 0).                              *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Vals, Configs

CInit(c) == [t |-> c.t, n |-> c.n, a |-> [i |-> 0, v |-> 1], b |-> [i |-> 0, v |-> 2]]
Inv(s) == s.a.i \in -1..(s.n - 1) /\ s.b.i \in -1..(s.n - 1)
Small(s) == s.n <= 4
Kinds(s) == {"put", "visit", "two"} \cup (IF s.t = "std" THEN {"boom", "cast", "can"} \cup (IF s.n <= 3 THEN {"swapab"} ELSE {}) ELSE {})
            \cup (IF s.n = 1 /\ s.t = "std" THEN {"over", "as"} ELSE {})
Ways(s) == IF s.a.i = -1 THEN {"visit", "visitR"} ELSE {"visit", "visitR", "nt", "ntR"}
Handlers(s) == IF Small(s) THEN {"gen", "each", "part", "obj"} ELSE {"gen", "part"}
Cats(s) == IF Small(s) THEN 0..3 ELSE {0, 2}
Alts(s) == IF s.n <= 6 THEN 0..(s.n - 1) ELSE {0, 1, 2, s.n \div 2, s.n - 4, s.n - 3, s.n - 2, s.n - 1} \cup {x \in {9, 10, 14, 15, 16, 17, 31, 32} : x < s.n}
Ops(s, k) ==
  CASE k = "put" -> {<<k, i, v>> : i \in Alts(s), v \in Vals}
    [] k = "boom" -> {<<k, i>> : i \in {0, s.n - 1}}
    [] k = "visit" -> {<<k, w, c, h>> : w \in Ways(s), c \in Cats(s), h \in Handlers(s)}
    [] k = "two" -> IF s.t = "std" \/ (s.a.i # -1 /\ s.b.i # -1) THEN {<<k>>} ELSE {}
    [] k = "cast" -> {<<k, c>> : c \in 0..2}
    [] k = "can" -> {<<k, i, c>> : i \in {0, 1, s.n - 1, s.a.i} \cap 0..(s.n - 1), c \in 0..1}
    [] k = "over" -> {<<k, i, w>> : i \in 0..5, w \in 0..2}
    [] k = "as" -> {<<k, v, w>> : v \in Vals, w \in 0..3}
    [] OTHER -> {<<k>>}
Hd(h, i) == IF h \in {"gen", "obj"} THEN 100 ELSE IF h = "each" THEN i ELSE IF i % 2 = 0 THEN i ELSE 100
After(x, c) == IF c = 0 THEN [x EXCEPT !.v = 10 + (x.v % 10)] ELSE IF c = 2 THEN [x EXCEPT !.v = 0] ELSE x
\* kinds of argument for an overload set: 0 int, 1 double, 2 text, 3 a type only the catch-all takes, 4 function, 5 lifted function
OverR(i) == <<i, 7 + i, 1>>
St(s, o) ==
  LET k == o[1] x == s.a IN
  CASE k = "put" -> <<[s EXCEPT !.a = [i |-> o[2], v |-> o[3]]], <<>>>>
    [] k = "boom" -> <<[s EXCEPT !.a = [i |-> -1, v |-> 0]], <<1>>>>
    [] k = "swapab" -> <<[s EXCEPT !.a = s.b, !.b = s.a], <<>>>>
    [] k = "visit" -> IF x.i = -1 THEN <<s, <<1, 0>>>>
                      ELSE <<[s EXCEPT !.a = After(x, o[3])], <<0, 1, Hd(o[4], x.i), x.i, x.v, o[3], 1000 + x.i>>>>
    [] k = "two" -> <<s, IF s.a.i = -1 \/ s.b.i = -1 THEN <<1>> ELSE <<0, s.a.i, s.a.v, s.b.i, s.b.v>>>>
    \* alternatives with an even index convert to the target, others do not
    [] k = "cast" -> <<IF o[2] = 2 /\ x.i # -1 /\ x.i % 2 = 0 THEN [s EXCEPT !.a.v = x.v] ELSE s, IF x.i = -1 \/ x.i % 2 = 1 THEN <<1>> ELSE <<0, 500 + x.v>>>>
    [] k = "can" -> <<s, <<B(x.i = o[2])>>>>
    [] k = "over" -> <<s, OverR(o[2])>>
    \* 0: bits changed by the visitor; 1: with a result; 2: const; 3: the visitor throws
    [] k = "as" -> <<s, CASE o[3] = 0 -> <<o[2] + 1, -1>> [] o[3] = 1 -> <<o[2] + 1, o[2] * 2>> [] o[3] = 2 -> <<o[2], o[2] * 2>> [] o[3] = 3 -> <<o[2], -2>>>>
Sfx(s) == <<s.a.i, s.a.v, s.b.i, s.b.v>>
Step(s, o) == LET x == St(s, o) IN [s |-> x[1], r |-> x[2] \o Sfx(x[1])]
Expect(s, o) == Step(s, o).r
Post(s, o, r) == IF r = Expect(s, o) THEN {Step(s, o).s} ELSE {}
=============================================================================
