-------------------------------- MODULE Sbo ---------------------------------
(***************************************************************************)
(* sbo_storage: empty, or one object of a known kind and value. Kinds: 0 an *)
(* integer, 1 an aggregate of integer and object, 2 a class with            *)
(* constructors, 3 a class larger than the buffer, 4 one aligned more       *)
(* strictly than the buffer, 5 a large class whose constructor may throw,   *)
(* 6 a small one. A result is what was asked for, whether something is      *)
(* stored, the number of live objects, live allocations, and misplaced      *)
(* objects (always none).                                                   *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Configs, Limit
CInit(c) == [k |-> -1, v |-> 0, sz |-> c.sz, n |-> 0]
Inv(s) == s.k \in -1..6
Kinds(s) == {"put", "putl", "throw", "get", "cget", "set", "end"}
Ops(s, k) ==
  IF s.n >= Limit THEN {} ELSE
  CASE k \in {"put", "putl"} -> IF s.k < 0 THEN {<<k, i, 3 + i>> : i \in 0..6} ELSE {}
    [] k = "throw" -> IF s.k < 0 THEN {<<k, i>> : i \in 5..6} ELSE {}
    [] k = "set" -> IF s.k >= 0 THEN {<<k, s.k, 9>>} ELSE {}
    [] OTHER -> IF s.k >= 0 THEN {<<k, s.k>>} ELSE {}
\* live objects: kind 0 is no class; others one each
Live(t) == IF t.k <= 0 THEN 0 ELSE 1
Eff(s, o) ==
  CASE o[1] \in {"put", "putl"} -> [r |-> <<o[3], o[3]>>, t |-> [s EXCEPT !.k = o[2], !.v = o[3]]]
    [] o[1] = "throw" -> [r |-> <<1>>, t |-> s]
    [] o[1] \in {"get", "cget"} -> [r |-> <<s.v>>, t |-> s]
    [] o[1] = "set" -> [r |-> <<>>, t |-> [s EXCEPT !.v = o[3]]]
    [] OTHER -> [r |-> <<>>, t |-> [s EXCEPT !.k = -1, !.v = 0]]
Step(s, o) == LET e == Eff(s, o) IN [s |-> [e.t EXCEPT !.n = @ + 1], r |-> e.r \o <<-50, B(e.t.k >= 0), Live(e.t), 0, 0>>]
Expect(s, o) == Step(s, o).r
\* where an object is kept is not decided, only that allocations end with it: the fourth number is
\* allocations without an object
Post(s, o, r) == IF r = Step(s, o).r THEN {Step(s, o).s} ELSE {}
=============================================================================
