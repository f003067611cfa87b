------------------------------ MODULE HashMap ------------------------------
(***************************************************************************)
(* The fixed-capacity hash containers as finite maps.                      *)
(*   t = "map"    bounded_hash_map<K, V, n>                                *)
(*   t = "set"    bounded_hash_set_t<K, n>                                 *)
(*   t = "vset"   hash_set_t<K>(n)                                         *)
(*   t = "static" static_hash_t<V, n>                                      *)
(* State: m, a sequence of <<key, value>> in key order (sets: value 0).    *)
(* The slot every key hashes to is part of the configuration (sl), so that *)
(* every collision pattern is reached; the specification never mentions    *)
(* slots - they may not matter.                                            *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Vals, Configs

Nk(s) == Len(s.sl)
CInit(c) == [t |-> c.t, n |-> c.n, sl |-> c.sl, m |-> c.init]
Keyset(m) == {m[i][1] : i \in 1..Len(m)}
Get(m, k) == (CHOOSE i \in 1..Len(m) : m[i][1] = k)
ValOf(m, k) == m[Get(m, k)][2]
Put(m, k, v) == IF k \in Keyset(m) THEN [m EXCEPT ![Get(m, k)] = <<k, v>>]
                ELSE LET lo == SelectSeq(m, LAMBDA e : e[1] < k)
                         hi == SelectSeq(m, LAMBDA e : e[1] > k) IN lo \o <<<<k, v>>>> \o hi
Del(m, k) == SelectSeq(m, LAMBDA e : e[1] # k)
Inv(s) == /\ Len(s.m) <= s.n
          /\ \A i \in 1..(Len(s.m) - 1) : s.m[i][1] < s.m[i + 1][1]
Full(s) == Len(s.m) = s.n
Keys(s) == 0..(Nk(s) - 1)
\* keys that may be inserted without exceeding the capacity
Insertable(s) == IF Full(s) THEN Keyset(s.m) ELSE Keys(s)

MapKinds == {"ins", "insp", "insl", "put", "idx", "cidx", "exists", "try_get", "find", "erase", "list", "copy"}
SetKinds == {"sins", "sinsm", "exists", "sfind", "serase", "list", "copy"}
VsetKinds == {"vins", "exists", "verase", "vsize", "copy"}
StKinds == {"put", "idx", "cidx", "sfindpos", "copy"}
Kinds(s) == CASE s.t = "map" -> MapKinds [] s.t = "set" -> SetKinds [] s.t = "vset" -> VsetKinds [] s.t = "static" -> StKinds
Ops(s, k) ==
  CASE k \in {"ins", "insp", "insl", "put"} -> {<<k, x, v>> : x \in Insertable(s), v \in Vals}
    [] k \in {"idx"} -> {<<k, x, 0>> : x \in Insertable(s)}
    [] k = "cidx" -> {<<k, x, 0>> : x \in Keyset(s.m)}
    [] k \in {"exists", "try_get", "find", "erase", "sfind", "serase", "verase", "vins"} -> {<<k, x, 0>> : x \in Keys(s)}
    [] k \in {"sins", "sinsm"} -> {<<k, x, 0>> : x \in Insertable(s)}
    [] k \in {"list", "copy", "vsize", "sfindpos"} -> {<<k, 0, 0>>}
FlatM(m) == Flat(m)
List(s) == <<Len(s.m), B(s.m = <<>>), s.n>> \o FlatM(s.m)
Step(s, o) ==
  LET k == o[1]
      x == o[2]
      v == o[3]
      in == x \in Keyset(s.m)
      put(w) == [s EXCEPT !.m = Put(s.m, x, w)]
      del == [s EXCEPT !.m = Del(s.m, x)] IN
  CASE k \in {"ins", "insp", "insl", "put"} -> [s |-> put(v), r |-> <<>>]
    [] k = "idx" -> [s |-> IF in THEN s ELSE put(0), r |-> <<IF in THEN ValOf(s.m, x) ELSE 0>>]
    [] k = "cidx" -> [s |-> s, r |-> <<ValOf(s.m, x)>>]
    [] k = "exists" -> [s |-> s, r |-> <<B(in), B(in)>>]
    [] k \in {"try_get"} -> [s |-> s, r |-> IF in THEN <<1, ValOf(s.m, x)>> ELSE <<0>>]
    [] k = "find" -> [s |-> s, r |-> IF in THEN <<1, x, ValOf(s.m, x), 1, x, ValOf(s.m, x)>> ELSE <<0, 0>>]
    [] k = "sfind" -> [s |-> s, r |-> IF in THEN <<1, x, 1, x>> ELSE <<0, 0>>]
    [] k = "erase" -> [s |-> del, r |-> <<>>]
    [] k \in {"serase", "verase"} -> [s |-> del, r |-> <<B(in)>>]
    [] k \in {"sins", "sinsm"} -> [s |-> put(0), r |-> <<x>>]
    [] k = "vins" -> IF in \/ ~Full(s) THEN [s |-> put(0), r |-> <<1>>] ELSE [s |-> s, r |-> <<0>>]
    [] k = "list" -> [s |-> s, r |-> List(s)]
    [] k = "vsize" -> [s |-> s, r |-> <<Len(s.m), s.n>>]
    [] k = "sfindpos" -> [s |-> s, r |-> <<1>>]
    [] k = "copy" -> [s |-> s, r |-> <<>>]
Expect(s, o) == Step(s, o).r
Post(s, o, r) == IF r = Expect(s, o) THEN {Step(s, o).s} ELSE {}
=============================================================================
