------------------------------- MODULE Scopes -------------------------------
(***************************************************************************)
(* scope  a stack s.g of guards <<kind, armed, a>>, kind 1 on_scope_exit,  *)
(*        2 on_exit_success, a the action; the result of an operation is   *)
(*        the sequence of actions that ran during it                       *)
(* res    two unique_resource cells, <<>> or <<v>>; the result begins with *)
(*        the values released during the operation                         *)
(* cnt    countable_resource_t: which of three objects are alive           *)
(* once   allow_once_t                                                     *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Vals, Configs, MaxDepth

CInit(c) == [t |-> c.t, g |-> <<>>, u |-> <<<<>>, <<>>>>, al |-> <<0, 0, 0>>, done |-> 0]
Inv(s) == (\A i \in 1..Len(s.g) : s.g[i][1] \in 1..2) /\ (\A i \in 1..2 : Len(s.u[i]) <= 1) /\ s.done \in 0..1
Kinds(s) == CASE s.t = "scope" -> {"push", "pushes", "exit", "unwind", "cancel", "dismiss", "run", "movec", "movea", "nest"}
   [] s.t = "res" -> {"ctor", "def", "emplace", "reset", "resetv", "release", "get", "set", "movec", "movea", "selfm"}
   [] s.t = "cnt" -> {"create", "copy", "assign", "destroy", "value"}
   [] OTHER -> {"check", "bool", "resetonce"}
Sg(s) == {i \in 1..Len(s.g) : s.g[i][1] = 1}
Ops(s, k) ==
  CASE k \in {"push", "pushes"} -> IF Len(s.g) < MaxDepth THEN {<<k, v>> : v \in Vals} ELSE {}
    [] k = "exit" -> IF s.g = <<>> THEN {} ELSE {<<k>>}
    [] k = "unwind" -> {<<k, n>> : n \in 1..Len(s.g)}
    [] k = "nest" -> {<<k, v, m>> : v \in Vals, m \in 0..4}
    [] k \in {"cancel", "dismiss"} -> {<<k, i>> : i \in Sg(s)}
    [] k = "run" -> {<<k, i>> : i \in {j \in Sg(s) : s.g[j][2] = 1}}
    [] k = "movec" /\ s.t = "scope" -> IF Len(s.g) < MaxDepth THEN {<<k, i>> : i \in Sg(s)} ELSE {}
    [] k = "movea" /\ s.t = "scope" -> {o \in {<<k, i, j>> : i \in Sg(s), j \in Sg(s)} : o[2] # o[3]}
    [] k \in {"ctor", "emplace", "resetv"} -> {<<k, i, v>> : i \in 1..2, v \in Vals}
    [] k = "set" -> {o \in {<<k, i, v>> : i \in 1..2, v \in Vals} : s.u[o[2]] # <<>>}
    [] k \in {"release", "get"} -> {<<k, i>> : i \in {j \in 1..2 : s.u[j] # <<>>}}
    [] k \in {"def", "reset", "selfm"} -> {<<k, i>> : i \in 1..2}
    [] k \in {"movec", "movea"} -> {<<k, 1, 2>>, <<k, 2, 1>>}
    [] k = "create" -> {<<k, i>> : i \in {j \in 1..3 : s.al[j] = 0}}
    [] k = "destroy" -> {<<k, i>> : i \in {j \in 1..3 : s.al[j] = 1}}
    [] k = "copy" -> {o \in {<<k, i, j>> : i \in 1..3, j \in 1..3} : s.al[o[2]] = 0 /\ s.al[o[3]] = 1}
    [] k = "assign" -> {o \in {<<k, i, j>> : i \in 1..3, j \in 1..3} : s.al[o[2]] = 1 /\ s.al[o[3]] = 1}
    [] OTHER -> {<<k>>}

\* the actions that run when scopes end, from the innermost, because of an exception or not
RECURSIVE Ends(_, _)
Ends(g, exc) == IF g = <<>> THEN <<>>
  ELSE LET x == g[Len(g)] IN (IF x[2] = 1 /\ (x[1] = 1 \/ ~exc) THEN <<x[3]>> ELSE <<>>) \o Ends(SubSeq(g, 1, Len(g) - 1), exc)
\* every outcome that is allowed; an action that is replaced by assignment may run then or never
Outs(s, o) ==
  LET k == o[1]
      i == o[2]
      one(t, r) == {[s |-> t, r |-> r]}
      n == Len(s.g) IN
  CASE k = "push" -> one([s EXCEPT !.g = Append(@, <<1, 1, i>>)], <<>>)
    [] k = "pushes" -> one([s EXCEPT !.g = Append(@, <<2, 1, i>>)], <<>>)
    [] k = "exit" -> one([s EXCEPT !.g = SubSeq(@, 1, n - 1)], Ends(<<s.g[n]>>, FALSE))
    [] k = "unwind" -> one([s EXCEPT !.g = SubSeq(@, 1, n - i)], Ends(SubSeq(s.g, n - i + 1, n), TRUE))
    [] k = "nest" -> one(s, IF o[3] = 1 THEN <<>> ELSE <<i>>)
    [] k \in {"cancel", "dismiss"} -> one([s EXCEPT !.g[i][2] = 0], <<>>)
    [] k = "run" -> one([s EXCEPT !.g[i][2] = 0], <<s.g[i][3]>>)
    [] k = "movec" /\ s.t = "scope" -> one([s EXCEPT !.g = Append([@ EXCEPT ![i][2] = 0], s.g[i])], <<>>)
    [] k = "movea" /\ s.t = "scope" -> LET t == [s EXCEPT !.g[i] = s.g[o[3]], !.g[o[3]][2] = 0] IN
          one(t, <<>>) \cup (IF s.g[i][2] = 1 THEN one(t, <<s.g[i][3]>>) ELSE {})
    [] k \in {"ctor", "resetv"} -> one([s EXCEPT !.u[i] = <<o[3]>>], s.u[i])
    [] k = "emplace" -> one([s EXCEPT !.u[i] = <<o[3]>>], s.u[i] \o <<o[3]>>)
    [] k \in {"def", "reset"} -> one([s EXCEPT !.u[i] = <<>>], s.u[i])
    [] k = "release" -> one([s EXCEPT !.u[i] = <<>>], s.u[i])
    [] k = "get" -> one(s, Rep(6, s.u[i][1]))
    [] k = "set" -> one([s EXCEPT !.u[i] = <<o[3]>>], <<>>)
    [] k = "selfm" -> one(s, <<>>)
    [] k \in {"movec", "movea"} -> one([s EXCEPT !.u[i] = s.u[o[3]], !.u[o[3]] = <<>>], s.u[i])
    [] k \in {"create", "copy"} -> one([s EXCEPT !.al[i] = 1], <<>>)
    [] k = "destroy" -> one([s EXCEPT !.al[i] = 0], <<>>)
    [] k = "assign" -> one(s, <<>>)
    [] k = "value" -> one(s, <<SumSeq(s.al)>>)
    [] k \in {"check", "bool"} -> one([s EXCEPT !.done = 1], <<s.done>>)
    [] k = "resetonce" -> one([s EXCEPT !.done = 0], <<>>)
Step(s, o) == CHOOSE x \in Outs(s, o) : x.r = <<>> \/ Cardinality(Outs(s, o)) = 1
Expect(s, o) == Step(s, o).r
Post(s, o, r) == {x.s : x \in {y \in Outs(s, o) : y.r = r}}
=============================================================================
