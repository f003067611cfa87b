--------------------------------- MODULE Tup --------------------------------
(***************************************************************************)
(* Tuples: daw::tuple2, daw::tuple, the helpers and apply for std::tuple,   *)
(* and packs of forwarded references. A tuple is a sequence of values of    *)
(* fixed kinds: 0 an integer, 1 a class that can be copied, 2 one that can  *)
(* only be moved, 3 an empty class, 4 a final class. Taking a value out of  *)
(* an rvalue leaves -7 in kinds 1 and 2 and nothing else changes. Every     *)
(* operation also reports the tuple as it is afterwards.                    *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Configs, Limit

\* c.lib: 0 tuple2, 1 tuple, 2 std::tuple and helpers, 3 fwd_pack
CInit(c) == [lib |-> c.lib, k |-> c.sh, v |-> [i \in 1..Len(c.sh) |-> IF c.sh[i] = 3 THEN 0 ELSE i], n |-> 0]
Inv(s) == Len(s.v) = Len(s.k) /\ \A i \in 1..Len(s.k) : (s.k[i] = 3 => s.v[i] = 0) /\ (s.v[i] < 0 => s.k[i] \in {1, 2})
N(s) == Len(s.k)
Copyable(s) == \A i \in 1..N(s) : s.k[i] # 2
AllInt(s) == \A i \in 1..N(s) : s.k[i] = 0
Moved(s) == [i \in 1..N(s) |-> IF s.k[i] \in {1, 2} THEN -7 ELSE s.v[i]]
\* the same shape with other values
Other(s, b) == [i \in 1..N(s) |-> IF s.k[i] = 3 THEN 0 ELSE b + i]
Plus(s) == [i \in 1..N(s) |-> IF s.k[i] = 3 THEN 0 ELSE s.v[i] + 1]
Trunc(a, b) == IF a >= 0 THEN IF b > 0 THEN a \div b ELSE -(a \div (-b)) ELSE IF b > 0 THEN -((-a) \div b) ELSE (-a) \div (-b)
Ar(op, a, b) == CASE op = 1 -> a + b [] op = 2 -> a - b [] op = 3 -> a * b [] op = 4 -> Trunc(a, b) [] op = 5 -> Min(a, b) [] OTHER -> Max(a, b)
RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>

Kinds(s) == {"set", "take", "ctake", "apl", "apc", "apr", "apcr", "copy", "move", "asg", "cat", "eq", "refs", "idx", "at", "each", "from", "out", "ar", "sb"}
Ops(s, k) ==
  IF s.n >= Limit THEN {} ELSE
  CASE k = "set" -> {<<k, i, 9>> : i \in {j \in 1..N(s) : s.k[j] # 3}}
    [] k = "take" -> {<<k, i>> : i \in 1..N(s)}
    [] k = "ctake" -> {<<k, i>> : i \in {j \in 1..N(s) : s.k[j] # 2}}
    [] k \in {"apl", "apc", "apr"} -> {<<k, f>> : f \in IF s.lib = 2 THEN 0..1 ELSE {0}}
    [] k = "apcr" -> {<<k, f>> : f \in IF s.lib = 2 THEN 0..1 ELSE {0}}
    [] k = "copy" -> IF s.lib # 3 /\ Copyable(s) THEN {<<k>>} ELSE {}
    [] k = "move" -> IF s.lib # 3 THEN {<<k>>} ELSE {}
    [] k = "asg" -> IF s.lib # 3 THEN {<<k, m>> : m \in IF Copyable(s) THEN 0..1 ELSE {1}} ELSE {}
    [] k = "cat" -> IF s.lib = 0 THEN {<<k, f>> : f \in IF Copyable(s) THEN 1..7 ELSE {2, 4}} ELSE {}
    [] k = "eq" -> IF s.lib = 1 THEN {<<k, w>> : w \in {s.v} \cup {[s.v EXCEPT ![i] = @ + 1] : i \in {j \in 1..N(s) : s.k[j] # 3}}} ELSE {}
    [] k = "refs" -> IF s.lib \in {0, 1, 2} /\ N(s) = 0 THEN {<<k, f>> : f \in CASE s.lib = 0 -> {1, 6} [] s.lib = 1 -> 1..3 [] OTHER -> 4..5} ELSE {}
    [] k \in {"idx"} -> IF s.lib = 2 THEN {<<k, i, m>> : i \in 0..(N(s) - 1), m \in 0..1} ELSE {}
    [] k = "at" -> IF s.lib = 2 THEN {<<k, i, m>> : i \in 0..N(s) \cup {256, 65536}, m \in 0..2} ELSE {}
    [] k = "each" -> IF s.lib = 2 THEN {<<k, m>> : m \in 0..1} ELSE {}
    [] k = "from" -> IF s.lib = 2 /\ N(s) \in 1..3 THEN {<<k, m>> : m \in IF Copyable(s) THEN 0..3 ELSE 2..3} ELSE {}
    [] k = "out" -> IF s.lib = 2 /\ AllInt(s) THEN {<<k>>} ELSE {}
    [] k = "ar" -> IF s.lib = 2 /\ AllInt(s) /\ N(s) > 0
                   THEN {<<k, op, f, w>> : op \in 1..4, f \in 1..3, w \in {[i \in 1..N(s) |-> 2], [i \in 1..N(s) |-> -3], [i \in 1..N(s) |-> 8 - i]}} \cup {<<k, op, 1, w>> : op \in 5..6, w \in {[i \in 1..N(s) |-> 8 - 3 * i]}} ELSE {}
    [] OTHER -> IF s.lib \in {1, 3} /\ N(s) = 2 THEN {<<k>>} ELSE {}

\* what an operation yields (before the tuple afterwards) and the values afterwards
R(r, v) == [r |-> r, v |-> v]
Eff(s, o) ==
  LET v == s.v n == N(s) u == Other(s, 10) k == o[1] IN
  CASE k = "set" -> R(<<>>, [v EXCEPT ![o[2]] = o[3]])
    [] k = "take" -> R(<<v[o[2]]>>, [v EXCEPT ![o[2]] = Moved(s)[o[2]]])
    [] k = "ctake" -> R(<<v[o[2]]>>, v)
    [] k = "apl" -> R(v, Plus(s))
    [] k = "apc" -> R(v, v)
    [] k = "apr" -> R(v, Moved(s))
    [] k = "apcr" -> R(v, v)
    [] k = "copy" -> R(v, v)
    [] k = "move" -> R(v, Moved(s))
    [] k = "asg" -> R(<<>>, u)
    [] k = "cat" -> (CASE o[2] = 1 -> R(v, v)
                       [] o[2] = 2 -> R(v, Moved(s))
                       [] o[2] \in {3, 5} -> R(v \o u, v)
                       [] o[2] = 4 -> R(v \o u, Moved(s))
                       [] o[2] = 6 -> R(v \o u \o v, v)
                       [] OTHER -> R(u \o v, Moved(s)))
    [] k = "eq" -> R(<<B(o[2] = v), B(o[2] # v), B(o[2] = v), 0, 1>>, v)
    [] k = "refs" -> R((CASE o[2] \in {1, 4} -> <<5, 3, 6>> [] o[2] = 2 -> <<5, 6>> [] o[2] \in {3, 6} -> <<5, 2, 3>> [] OTHER -> <<5, 3, -7>>), v)
    [] k = "idx" -> IF o[3] = 0 /\ s.k[o[2] + 1] # 3 THEN R(<<o[2], v[o[2] + 1]>>, [v EXCEPT ![o[2] + 1] = 7]) ELSE R(<<o[2], v[o[2] + 1]>>, v)
    [] k = "at" -> IF o[2] >= n THEN R(<<>>, v)
                   ELSE (CASE o[3] = 0 -> R(<<v[o[2] + 1]>>, [v EXCEPT ![o[2] + 1] = Plus(s)[o[2] + 1]])
                          [] o[3] = 1 -> R(<<v[o[2] + 1]>>, v)
                          [] OTHER -> R(<<v[o[2] + 1]>>, [v EXCEPT ![o[2] + 1] = Moved(s)[o[2] + 1]]))
    [] k = "each" -> R(v, IF o[2] = 1 THEN Plus(s) ELSE v)
    [] k = "from" -> R(v, IF o[2] >= 2 THEN Moved(s) ELSE v)
    [] k = "out" -> R(<<123>> \o Flat([i \in 1..n |-> (IF i > 1 THEN <<44>> ELSE <<>>) \o <<32>> \o Dec(v[i])]) \o <<32, 125>>, v)
    [] k = "ar" -> R([i \in 1..n |-> CASE o[3] = 1 -> Ar(o[2], v[i], o[4][i]) [] o[3] = 2 -> Ar(o[2], v[i], o[4][1]) [] OTHER -> Ar(o[2], IF o[2] = 4 THEN 100 ELSE o[4][1], v[i])], v)
    [] OTHER -> R(v, v)
Step(s, o) == LET e == Eff(s, o) IN [s |-> [s EXCEPT !.v = e.v, !.n = @ + 1], r |-> e.r \o <<-50>> \o e.v]
Expect(s, o) == Step(s, o).r
Post(s, o, r) == IF r = Step(s, o).r THEN {Step(s, o).s} ELSE {}
=============================================================================
