------------------------------- MODULE Vector -------------------------------
(***************************************************************************)
(* daw::vector: a population of NV vectors.                                *)
(* State: v[i] = contents (sequence of element values), c[i] = capacity.   *)
(* Result of every operation on vector i:                                  *)
(*   <<size_i, cap_1 .. cap_NV, same_i, contents_i ..., ret ...>>          *)
(* where same_i = 1 iff data() did not move during the operation.          *)
(* Step models the growth policy, so that the exhaustive exploration       *)
(* visits every (size, capacity) boundary; Post accepts any capacity that  *)
(* the documented contract allows and continues from the observed one.     *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Lists, NV, MaxLen, MaxCap, Vals, MaxN, Enabled, MoveOnly, Trivial, Configs

CInit(c) == [v |-> [i \in 1..c.nv |-> <<>>], c |-> [i \in 1..c.nv |-> 0]]
Inv(s) == \A i \in DOMAIN s.v : Len(s.v[i]) <= s.c[i] /\ s.c[i] <= 1000000

VecIds == 1..NV
NL(n) == {q \in Lists : Len(q) <= n}
Room(s, i) == MaxLen - Len(s.v[i])
Pos(s, i) == 0..Len(s.v[i])
Idx(s, i) == 0..(Len(s.v[i]) - 1)

CopyKinds == {"ctor_nv", "ctor_il", "ctor_copy", "assign_n", "assign_il", "copy_assign", "assign_eq_il", "push_c", "push_alias",
              "emplace_back_alias", "insert_c", "insert_alias", "emplace_alias", "insert_n", "insert_n_alias", "insert_il",
              "resize_v", "append"}
TrivKinds == {"ctor_rao", "rao", "aao", "block_append", "block_create"}
AllKinds == {"ctor_n", "ctor_nv", "ctor_il", "ctor_range", "ctor_input", "ctor_copy", "ctor_move", "ctor_default",
             "assign_n", "assign_range", "assign_input", "assign_il", "assign_eq_il", "copy_assign", "move_assign", "swap",
             "push_c", "push_m", "push_alias", "emplace_back", "emplace_back_alias", "pop_back", "pop_back_value",
             "insert_c", "insert_m", "insert_alias", "emplace", "emplace_alias", "insert_n", "insert_n_alias",
             "insert_range", "insert_input", "insert_il", "erase", "erase_range", "resize", "resize_v", "append",
             "reserve", "shrink", "clear", "ctor_rao", "rao", "aao", "block_append", "block_create", "erase_val", "erase_if",
             "at", "idx", "ends", "set", "cmp", "iter", "obs"}
Usable == (IF Enabled = {} THEN AllKinds ELSE Enabled) \ ((IF MoveOnly THEN CopyKinds ELSE {}) \cup (IF Trivial THEN {} ELSE TrivKinds))
Kinds(s) == Usable

Ops(s, k) ==
  CASE k = "ctor_default" -> {<<k, i, a>> : i \in VecIds, a \in 0..1}
    [] k = "ctor_n" -> {<<k, i, n, a>> : i \in VecIds, n \in 0..Min(MaxN, MaxLen), a \in 0..1}
    [] k = "ctor_nv" -> {<<k, i, n, x, a>> : i \in VecIds, n \in 0..Min(MaxN, MaxLen), x \in Vals, a \in 0..1}
    [] k \in {"ctor_range", "ctor_input"} -> {<<k, i, q, a>> : i \in VecIds, q \in Lists, a \in 0..1}
    [] k = "ctor_il" -> {<<k, i, q>> : i \in VecIds, q \in Lists}
    [] k = "ctor_copy" -> {<<k, i, j, a>> : i \in VecIds, j \in VecIds, a \in 0..1}
    [] k = "ctor_move" -> {<<k, i, j, a>> : i \in VecIds, j \in VecIds, a \in 0..1}
    [] k = "assign_n" -> {<<k, i, n, x>> : i \in VecIds, n \in 0..Min(MaxN, MaxLen), x \in Vals}
    [] k \in {"assign_range", "assign_input", "assign_il", "assign_eq_il"} -> {<<k, i, q>> : i \in VecIds, q \in Lists}
    [] k = "copy_assign" -> {<<k, i, j>> : i \in VecIds, j \in VecIds}
    [] k = "move_assign" -> {<<k, i, j>> : i \in VecIds, j \in VecIds} \ {<<k, i, i>> : i \in VecIds}
    [] k = "swap" -> {<<k, i, j, f>> : i \in VecIds, j \in VecIds, f \in 0..1}
    [] k \in {"push_c", "push_m", "emplace_back"} -> {<<k, i, x>> : i \in {j \in VecIds : Room(s, j) > 0}, x \in Vals}
    [] k \in {"push_alias", "emplace_back_alias"} -> UNION {{<<k, i, p>> : p \in Idx(s, i)} : i \in {j \in VecIds : Room(s, j) > 0}}
    [] k \in {"pop_back", "pop_back_value"} -> {<<k, i>> : i \in {j \in VecIds : s.v[j] # <<>>}}
    [] k \in {"insert_c", "insert_m", "emplace"} -> UNION {{<<k, i, p, x>> : p \in Pos(s, i), x \in Vals} : i \in {j \in VecIds : Room(s, j) > 0}}
    [] k \in {"insert_alias", "emplace_alias"} -> UNION {{<<k, i, p, x>> : p \in Pos(s, i), x \in Idx(s, i)} : i \in {j \in VecIds : Room(s, j) > 0}}
    [] k = "insert_n" -> UNION {{<<k, i, p, n, x>> : p \in Pos(s, i), n \in 0..Min(MaxN, Room(s, i)), x \in Vals} : i \in VecIds}
    [] k = "insert_n_alias" -> UNION {{<<k, i, p, n, x>> : p \in Pos(s, i), n \in 0..Min(MaxN, Room(s, i)), x \in Idx(s, i)} : i \in VecIds}
    [] k \in {"insert_range", "insert_input", "insert_il"} -> UNION {{<<k, i, p, q>> : p \in Pos(s, i), q \in NL(Room(s, i))} : i \in VecIds}
    [] k = "erase" -> UNION {{<<k, i, p>> : p \in Idx(s, i)} : i \in VecIds}
    [] k = "erase_range" -> UNION {{<<k, i, t[1], t[2]>> : t \in {z \in Pos(s, i) \X Pos(s, i) : z[1] <= z[2]}} : i \in VecIds}
    [] k = "resize" -> {<<k, i, n>> : i \in VecIds, n \in 0..MaxLen}
    [] k = "resize_v" -> {<<k, i, n, x>> : i \in VecIds, n \in 0..MaxLen, x \in Vals}
    [] k = "append" -> UNION {{<<k, i, n, x>> : n \in 0..Min(MaxN, Room(s, i)), x \in Vals} : i \in VecIds}
    [] k = "reserve" -> {<<k, i, n>> : i \in VecIds, n \in 0..MaxCap}
    [] k \in {"shrink", "clear"} -> {<<k, i>> : i \in VecIds}
    [] k \in {"rao", "ctor_rao"} -> UNION {{<<k, i, n, m, x, a>> : m \in 0..n, x \in Vals, a \in 0..2} : i \in VecIds, n \in 0..MaxLen}
    [] k = "aao" -> UNION {UNION {{<<k, i, n, m, x, a>> : m \in 0..n, x \in Vals, a \in 0..2} : n \in 0..Min(MaxN, Room(s, i))} : i \in VecIds}
    [] k = "block_append" -> UNION {{<<k, i, q, b>> : q \in NL(Room(s, i)), b \in 1..3} : i \in VecIds}
    [] k = "block_create" -> {<<k, i, q, b>> : i \in VecIds, q \in Lists, b \in 1..3}
    [] k = "erase_val" -> {<<k, i, x>> : i \in VecIds, x \in Vals}
    [] k = "erase_if" -> {<<k, i, r>> : i \in VecIds, r \in 0..1}
    [] k = "at" -> UNION {{<<k, i, p, f>> : p \in 0..(Len(s.v[i]) + 1), f \in 0..1} : i \in VecIds}
    [] k = "idx" -> UNION {{<<k, i, p>> : p \in Idx(s, i)} : i \in VecIds}
    [] k = "ends" -> {<<k, i>> : i \in {j \in VecIds : s.v[j] # <<>>}}
    [] k = "set" -> UNION {{<<k, i, p, x, f>> : p \in Idx(s, i), x \in Vals, f \in 0..5} : i \in VecIds}
    [] k = "cmp" -> {<<k, i, j>> : i \in VecIds, j \in VecIds}
    [] k = "iter" -> UNION {{<<k, i, p, q, f>> : p \in Pos(s, i), q \in Pos(s, i), f \in 0..1} : i \in VecIds}
    [] k = "obs" -> {<<k, i, f>> : i \in VecIds, f \in 0..5}

RECURSIVE GrowN(_, _, _)
GrowN(c, n, m) == IF n = m THEN c ELSE GrowN(IF c < n + 1 THEN Max(2 * c, n + 1) ELSE c, n + 1, m)

\* new contents of vector i and the operation specific result
Eff(s, o) ==
  LET k == o[1]  i == o[2]  q == s.v[i]  n == Len(q) IN
  CASE k = "ctor_default" -> [q |-> <<>>, ret |-> <<>>]
    [] k = "ctor_n" -> [q |-> Rep(o[3], 0), ret |-> <<>>]
    [] k = "ctor_nv" -> [q |-> Rep(o[3], o[4]), ret |-> <<>>]
    [] k \in {"ctor_il", "ctor_range", "ctor_input", "assign_range", "assign_input", "assign_il", "assign_eq_il", "block_create"} -> [q |-> o[3], ret |-> <<>>]
    [] k = "ctor_copy" -> [q |-> s.v[o[3]], ret |-> s.v[o[3]]]
    [] k = "ctor_move" -> [q |-> s.v[o[3]], ret |-> <<0>>]
    [] k = "assign_n" -> [q |-> Rep(o[3], o[4]), ret |-> <<>>]
    [] k = "copy_assign" -> [q |-> s.v[o[3]], ret |-> s.v[o[3]]]
    [] k = "move_assign" -> [q |-> s.v[o[3]], ret |-> <<>>]
    [] k = "swap" -> [q |-> s.v[o[3]], ret |-> q]
    [] k \in {"push_c", "push_m"} -> [q |-> Append(q, o[3]), ret |-> <<>>]
    [] k = "emplace_back" -> [q |-> Append(q, o[3]), ret |-> <<o[3], n>>]
    [] k = "push_alias" -> [q |-> Append(q, q[o[3] + 1]), ret |-> <<>>]
    [] k = "emplace_back_alias" -> [q |-> Append(q, q[o[3] + 1]), ret |-> <<q[o[3] + 1], n>>]
    [] k = "pop_back" -> [q |-> Take(q, n - 1), ret |-> <<>>]
    [] k = "pop_back_value" -> [q |-> Take(q, n - 1), ret |-> <<q[n]>>]
    [] k \in {"insert_c", "insert_m", "emplace"} -> [q |-> Ins(q, o[3], <<o[4]>>), ret |-> <<o[3]>>]
    [] k \in {"insert_alias", "emplace_alias"} -> [q |-> Ins(q, o[3], <<q[o[4] + 1]>>), ret |-> <<o[3]>>]
    [] k = "insert_n" -> [q |-> Ins(q, o[3], Rep(o[4], o[5])), ret |-> <<o[3]>>]
    [] k = "insert_n_alias" -> [q |-> Ins(q, o[3], Rep(o[4], q[o[5] + 1])), ret |-> <<o[3]>>]
    [] k \in {"insert_range", "insert_input", "insert_il"} -> [q |-> Ins(q, o[3], o[4]), ret |-> <<o[3]>>]
    [] k = "erase" -> [q |-> Cut(q, o[3], o[3] + 1), ret |-> <<o[3]>>]
    [] k = "erase_range" -> [q |-> Cut(q, o[3], o[4]), ret |-> <<o[3]>>]
    [] k = "resize" -> [q |-> IF o[3] <= n THEN Take(q, o[3]) ELSE q \o Rep(o[3] - n, 0), ret |-> <<>>]
    [] k = "resize_v" -> [q |-> IF o[3] <= n THEN Take(q, o[3]) ELSE q \o Rep(o[3] - n, o[4]), ret |-> <<>>]
    [] k = "append" -> [q |-> q \o Rep(o[3], o[4]), ret |-> <<>>]
    [] k \in {"reserve", "shrink"} -> [q |-> q, ret |-> <<>>]
    [] k = "clear" -> [q |-> <<>>, ret |-> <<>>]
    [] k = "ctor_rao" -> [q |-> Rep(o[4], o[5]), ret |-> <<>>]
    [] k = "rao" -> [q |-> Rep(o[4], o[5]), ret |-> <<IF o[6] = 2 /\ o[4] = 0 THEN -1 ELSE o[4], o[3]>>]
    [] k = "aao" -> [q |-> q \o Rep(o[4], o[5]), ret |-> <<IF o[6] = 2 /\ o[4] = 0 THEN -1 ELSE o[4], o[3]>>]
    [] k = "block_append" -> [q |-> q \o o[3], ret |-> <<>>]
    [] k = "erase_val" -> LET z == Sel(q, LAMBDA x : x # o[3]) IN [q |-> z, ret |-> <<n - Len(z)>>]
    [] k = "erase_if" -> LET z == Sel(q, LAMBDA x : x % 2 # o[3]) IN [q |-> z, ret |-> <<n - Len(z)>>]
    [] k = "at" -> [q |-> q, ret |-> IF o[3] < n THEN <<0, q[o[3] + 1]>> ELSE <<1>>]
    [] k = "idx" -> [q |-> q, ret |-> <<q[o[3] + 1], q[o[3] + 1]>>]
    [] k = "ends" -> [q |-> q, ret |-> <<q[1], q[1], q[n], q[n]>>]
    [] k = "set" -> [q |-> [q EXCEPT ![o[3] + 1] = o[4]], ret |-> <<>>]
    [] k = "cmp" -> LET p == s.v[o[3]] IN
         [q |-> q, ret |-> <<B(q = p), B(q # p), B(LexLt(q, p)), B(LexLt(p, q)), B(~LexLt(p, q)), B(~LexLt(q, p))>>]
    [] k = "iter" -> LET a == o[3]  b == o[4] IN
         [q |-> q, ret |-> <<b - a, B(a = b), B(a # b), B(a < b), B(a > b), B(a <= b), B(a >= b),
                             IF a < n THEN q[a + 1] ELSE -1, IF b < n THEN q[b + 1] ELSE -1, IF b > 0 THEN q[b] ELSE -1, n - a>>]
    [] k = "obs" -> [q |-> q, ret |-> <<n, B(n = 0), n, 1>> \o (IF o[3] \in {2, 3} THEN Rev(q) ELSE q)]

PureKinds == {"at", "idx", "ends", "set", "cmp", "iter", "obs", "clear", "erase", "erase_range", "erase_val", "erase_if", "pop_back", "pop_back_value"}
CtorKinds == {"ctor_default", "ctor_n", "ctor_nv", "ctor_il", "ctor_range", "ctor_input", "ctor_copy", "ctor_move", "ctor_rao", "block_create"}

\* capacity of vector i the growth policy would give (exploration only)
CapStep(s, o, m) ==
  LET k == o[1]  i == o[2]  c == s.c[i] IN
  CASE k \in {"ctor_input"} -> GrowN(0, 0, m)
    [] k = "ctor_move" -> s.c[o[3]]
    [] k = "move_assign" -> s.c[o[3]]
    [] k = "swap" -> s.c[o[3]]
    [] k \in CtorKinds -> m
    [] k = "reserve" -> Max(c, o[3])
    [] k = "shrink" -> m
    [] k \in PureKinds -> c
    [] k = "assign_input" -> GrowN(c, 0, m)
    [] k = "rao" -> Max(c, o[3])
    [] k = "aao" -> Max(c, Len(s.v[i]) + o[3])
    [] OTHER -> IF m <= c THEN c ELSE Max(2 * c, m)

Others(s, o, S) ==
  LET k == o[1]  i == o[2] IN
  CASE k = "ctor_move" /\ o[3] # i -> [S EXCEPT !.v[o[3]] = <<>>, !.c[o[3]] = 0]
    [] k = "move_assign" -> [S EXCEPT !.v[o[3]] = <<>>, !.c[o[3]] = 0]
    [] k = "swap" /\ o[3] # i -> [S EXCEPT !.v[o[3]] = s.v[i], !.c[o[3]] = s.c[i]]
    [] OTHER -> S

Next1(s, o) == LET e == Eff(s, o)  m == Len(e.q) IN
  Others(s, o, [s EXCEPT !.v[o[2]] = e.q, !.c[o[2]] = IF CapStep(s, o, m) > MaxCap THEN Max(m, MaxCap) ELSE CapStep(s, o, m)])
Step(s, o) == [s |-> Next1(s, o), r |-> Eff(s, o).ret]
Expect(s, o) == <<Eff(s, o)>>

\* documented capacity contract for vector i: old capacity c, old size n, new size m, observed capacity d
CapOk(s, o, m, d) ==
  LET k == o[1]  c == s.c[o[2]] IN
  /\ d >= m
  /\ CASE k \in CtorKinds \cup {"move_assign", "copy_assign", "swap"} -> TRUE
       [] k = "shrink" -> d <= c
       [] k = "reserve" -> d >= o[3] /\ d >= c /\ (o[3] <= c => d = c)
       [] k = "rao" -> d >= Max(o[3], c) /\ (o[3] <= c => d = c)
       [] k = "aao" -> d >= c /\ d >= Len(s.v[o[2]]) + o[3] /\ (Len(s.v[o[2]]) + o[3] <= c => d = c)
       [] k = "block_append" -> d >= c
       [] OTHER -> d >= c /\ (m <= c => d = c)
\* storage may move only when it has to
MayMove(s, o, m) ==
  LET k == o[1]  c == s.c[o[2]] IN
  CASE k \in CtorKinds \cup {"move_assign", "copy_assign", "swap", "shrink", "block_append"} -> TRUE
    [] k = "reserve" -> o[3] > c
    [] k = "rao" -> o[3] > c
    [] k = "aao" -> Len(s.v[o[2]]) + o[3] > c
    [] OTHER -> m > c

Post(s, o, r) ==
  LET e == Eff(s, o)  m == Len(e.q)  i == o[2]
      t == Others(s, o, [s EXCEPT !.v[i] = e.q]) IN
  IF /\ Len(r) = 2 + Len(s.v) + m + Len(e.ret)
     /\ r[1] = m
     /\ SubSeq(r, 3 + Len(s.v), 2 + Len(s.v) + m) = e.q
     /\ SubSeq(r, 3 + Len(s.v) + m, Len(r)) = e.ret
     /\ CapOk(s, o, m, r[1 + i])
     /\ (MayMove(s, o, m) \/ r[2 + Len(s.v)] = 1)
     /\ \A j \in DOMAIN s.v : r[1 + j] >= Len(t.v[j])
     /\ \A j \in DOMAIN s.v : (j # i /\ t.v[j] = s.v[j] /\ o[1] \notin {"swap", "move_assign", "ctor_move"}) => r[1 + j] = s.c[j]
  THEN {[t EXCEPT !.c = [j \in DOMAIN s.v |-> r[1 + j]]]}
  ELSE {}
=============================================================================
