-------------------------------- MODULE Phash -------------------------------
(***************************************************************************)
(* A perfect hash table (daw_min_perfect_hash.h): a map from the keys it    *)
(* was made of to values. Every operation reports, for each key of a pool,  *)
(* whether it is found and with which value.                                *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Pool, Configs

\* c.k: the keys in the order given; c.src: how it is made
CInit(c) == [k |-> c.k, v |-> [i \in 1..Len(c.k) |-> i]]
Inv(s) == Len(s.v) = Len(s.k)
Has(s, x) == \E i \in 1..Len(s.k) : s.k[i] = x
Ix(s, x) == CHOOSE i \in 1..Len(s.k) : s.k[i] = x
Row(s) == [i \in 1..Len(Pool) |-> IF Has(s, Pool[i]) THEN s.v[Ix(s, Pool[i])] ELSE -1] \o <<Len(s.k)>>
Kinds(s) == {"probe", "set", "put"}
\* the first and the last key are written
\* set: through []; put: through find, which changes nothing for an absent key
Ops(s, k) ==
  CASE k = "probe" -> {<<k>>}
    [] k = "set" -> {<<k, x, 7>> : x \in {s.k[1], s.k[Len(s.k)]}}
    [] OTHER -> {<<k, x, 8>> : x \in {y \in Ran(Pool) : y = s.k[1] \/ ~Has(s, y)}}
Upd(s, x, n) == IF Has(s, x) THEN [s EXCEPT !.v[Ix(s, x)] = n] ELSE s
Step(s, o) ==
  LET t == IF o[1] = "probe" THEN s ELSE Upd(s, o[2], o[3])
  IN [s |-> t, r |-> (IF o[1] = "put" THEN <<B(Has(s, o[2]))>> ELSE <<>>) \o Row(t)]
Expect(s, o) == Step(s, o).r
Post(s, o, r) == IF r = Step(s, o).r THEN {Step(s, o).s} ELSE {}
\* all orders of n keys of a set
Perms(S, n) == {q \in [1..n -> S] : \A i, j \in 1..n : i # j => q[i] # q[j]}
=============================================================================
