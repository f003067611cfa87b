-------------------------------- MODULE Asm ---------------------------------
(***************************************************************************)
(* Values assembled from parts. c.lib: 0 a factory of three arguments       *)
(* (integer, object, integer), 1 the same with arguments given as functions *)
(* called when the value is made, 2 a poly_var of two classes with a common *)
(* base, 3 tables: named options, concatenated strings, zipped containers,  *)
(* simple arrays.                                                           *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Configs, Limit

\* a part: <<0, 0>> nothing, <<1, v>> a value, <<2, v>> a function that yields v + 100
CInit(c) == [lib |-> c.lib, p |-> IF c.lib < 2 THEN Rep(3, <<0, 0>>) ELSE IF c.lib = 2 THEN <<<<c.k, 5>>>> ELSE <<>>, n |-> 0]
Inv(s) == Len(s.p) \in {0, 1, 3}
Full(s) == \A i \in 1..3 : s.p[i][1] # 0
Kinds(s) == IF s.lib < 2 THEN {"setn", "setl", "seti", "fn", "fni", "bad", "call", "mcall", "copy"}
            ELSE IF s.lib = 2 THEN {"put", "read", "wr", "wro", "copy", "same"}
            ELSE {"opt", "cat", "zip", "arr"}
Words == {<<>>, <<97>>, <<98, 99>>}
Ops(s, k) ==
  IF s.n >= Limit THEN {} ELSE
  CASE k \in {"setn", "seti", "setl"} -> {<<k, i, 3 + i>> : i \in 0..2}
    [] k = "fn" -> IF s.lib = 1 THEN {<<k, i, 3 + i>> : i \in 0..2} ELSE {}
    [] k = "fni" -> {}
    [] k = "bad" -> {<<k, i>> : i \in {3, 256}}
    [] k \in {"call", "mcall"} -> IF Full(s) THEN {<<k>>} ELSE {}
    [] k = "put" -> {<<k, i, v, f>> : i \in 1..2, v \in {6, 7}, f \in 0..1}
    [] k = "opt" -> {<<k, q>> : q \in {<<>>, <<1>>, <<2>>, <<3>>, <<1, 2>>, <<2, 1>>, <<3, 1>>, <<1, 3>>, <<2, 3>>, <<1, 2, 3>>, <<3, 2, 1>>, <<2, 3, 1>>}}
    [] k = "cat" -> {<<k, a, b, c, f>> : a \in Words, b \in Words, c \in Words, f \in 0..2}
    [] k = "zip" -> {<<k, n, f>> : n \in 0..3, f \in 0..2}
    [] k = "arr" -> {<<k, n>> : n \in 0..4}
    [] OTHER -> {<<k>>}
Rng(q) == {q[i] : i \in 1..Len(q)}
R(r, p) == [r |-> r, p |-> p]
Val(x) == IF x[1] = 2 THEN x[2] + 100 ELSE x[2]
\* functions called when the value is made
Fns(s) == Len(SelectSeq(s.p, LAMBDA x : x[1] = 2))
Eff(s, o) ==
  LET k == o[1] p == s.p IN
  CASE k \in {"setn", "seti", "setl"} -> R(<<0>>, [p EXCEPT ![o[2] + 1] = <<1, o[3]>>])
    [] k = "fn" -> R(<<0>>, [p EXCEPT ![o[2] + 1] = <<2, o[3]>>])
    [] k = "bad" -> R(<<1>>, p)
    [] k = "call" -> R(<<Val(p[1]), Val(p[2]), Val(p[3]), Fns(s)>>, p)
    [] k = "mcall" -> R(<<Val(p[1]), Val(p[2]), Val(p[3]), Fns(s)>>, IF p[2][1] = 1 THEN [p EXCEPT ![2][2] = -7] ELSE p)
    [] k = "copy" /\ s.lib < 2 -> R(IF Full(s) THEN <<Val(p[1]), Val(p[2]), Val(p[3]), Fns(s)>> ELSE <<>>, p)
    [] k = "put" -> R(<<>>, <<<<o[2], o[3]>>>>)
    [] k = "read" -> R(Rep(4, p[1][2]) \o Rep(4, p[1][1]), p)
    [] k = "wr" -> R(<<>>, <<<<p[1][1], 8>>>>)
    [] k = "wro" -> R(<<>>, <<<<p[1][1], 9>>>>)
    [] k = "copy" -> R(<<p[1][1], p[1][2]>>, p)
    [] k = "same" -> R(<<1, 1>>, p)
    [] k = "opt" -> R(<<IF 1 \in Rng(o[2]) THEN 11 ELSE 1, IF 2 \in Rng(o[2]) THEN 22 ELSE 2, IF 3 \in Rng(o[2]) THEN 33 ELSE 3>>, p)
    [] k = "cat" -> R(o[2] \o o[3] \o o[4], p)
    [] k = "zip" -> R(Flat([i \in 1..o[2] |-> <<i, 10 * i>>]), p)
    [] OTHER -> R([i \in 1..o[2] |-> i] \o <<-1>> \o [i \in 1..o[2] |-> i + 20], p)
Step(s, o) == LET e == Eff(s, o) IN [s |-> [s EXCEPT !.p = e.p, !.n = @ + 1], r |-> e.r]
Expect(s, o) == Step(s, o).r
Post(s, o, r) == IF r = Step(s, o).r THEN {Step(s, o).s} ELSE {}
=============================================================================
