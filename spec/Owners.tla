------------------------------- MODULE Owners -------------------------------
(***************************************************************************)
(* Owning handles: unique_ptr, unique_ptr<T[]>, maybe_unique_ptr,          *)
(* value_ptr, poly_value, unique_array_t, copiable_unique_ptr and the      *)
(* reference counted rc_ptr / rc_ptr<T[]>.                                 *)
(* A population of n handle places; place i is absent (st 0), a null       *)
(* handle (st 1) or a handle on object id (st 2), owning it or not (maybe).*)
(* val[id] = 0 when id is free, the object's value when it is alive and W  *)
(* when its value is unspecified (moved-from).  raw is an object owned by  *)
(* the client (after release, or lent to a non-owning handle).             *)
(* After every operation the result is                                     *)
(*   alive objects, objects destroyed by the operation,                    *)
(*   per place: st, value, identity class, use count;                      *)
(*   raw value, raw identity class;  operation specific values.            *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Vals, Enabled, Configs
W == -1

CInit(c) == [c |-> c, st |-> [i \in 1..c.n |-> 0], id |-> [i \in 1..c.n |-> 0], own |-> [i \in 1..c.n |-> FALSE],
             raw |-> 0, val |-> [j \in 1..(c.n + 2) |-> 0], x |-> <<>>]
Ids(s) == DOMAIN s.val
P(s) == 1..s.c.n
Here(s) == {i \in P(s) : s.st[i] # 0}
Gone(s) == {i \in P(s) : s.st[i] = 0}
Full(s) == {i \in P(s) : s.st[i] = 2}
Refs(s, j) == {i \in P(s) : s.st[i] = 2 /\ s.id[i] = j}
Owners(s, j) == {i \in Refs(s, j) : s.own[i]}
Inv(s) == /\ \A i \in P(s) : s.st[i] = 2 => s.val[s.id[i]] # 0
          /\ \A j \in Ids(s) : s.val[j] # 0 => (Owners(s, j) # {} \/ s.raw = j)
          /\ \A j \in Ids(s) : (s.c.kind \notin {"rc", "rcarr"}) => Cardinality(Owners(s, j)) + B(s.raw = j) <= 1

Shared(s) == s.c.kind \in {"rc", "rcarr"}
Deep(s) == s.c.kind \in {"value", "poly", "copiable"}
K(s) == IF s.c.kind \in {"uarr", "rcarr", "uat"} THEN 2 ELSE 1
Counts(s) == s.c.kind \notin {"value", "poly", "copiable"}
CanNull(s) == s.c.kind # "poly"

Caps == [unique   |-> {"new", "newc", "null", "del", "mctor", "massign", "cvassign", "swap", "reset", "resetp", "release", "newraw", "delraw", "adopt", "set", "getout", "and_then", "or_else", "transform", "cmp"},
         uarr     |-> {"new", "null", "del", "mctor", "massign", "swap", "reset", "release", "newraw", "delraw", "adopt", "set", "and_then", "or_else", "transform"},
         maybe    |-> {"new", "newc", "null", "del", "mctor", "massign", "cvassign", "swap", "reset", "resetp", "release", "newraw", "delraw", "adopt", "lend", "set", "getout", "and_then", "or_else", "transform", "cmp"},
         value    |-> {"new", "null", "del", "mctor", "massign", "cctor", "cassign", "swap", "reset", "release", "newraw", "delraw", "set", "assignv", "cmp"},
         poly     |-> {"new", "newc", "del", "mctor", "massign", "cctor", "cassign", "swap", "set"},
         copiable |-> {"new", "null", "del", "mctor", "massign", "cctor", "cassign", "swap", "reset", "release", "newraw", "delraw", "adopt", "set", "cmp"},
         uat      |-> {"new", "null", "del", "mctor", "massign", "set", "at"},
         rc       |-> {"new", "null", "del", "mctor", "massign", "cctor", "cassign", "swap", "reset", "set", "cmp"},
         rcarr    |-> {"new", "null", "del", "mctor", "massign", "cctor", "cassign", "swap", "reset", "set", "cmp"}]
Kinds(s) == IF Enabled = {} THEN Caps[s.c.kind] ELSE Caps[s.c.kind] \cap Enabled

RawFree(s) == s.raw # 0 /\ Refs(s, s.raw) = {}
RelOk(s) == {i \in Here(s) : s.st[i] = 1 \/ ~s.own[i] \/ s.raw = 0}
Ops(s, k) ==
  CASE k \in {"new", "newc"} -> {<<k, a, v, f>> : a \in Gone(s), v \in Vals, f \in 0..1}
    [] k = "null" -> {<<k, a, f>> : a \in Gone(s), f \in 0..1}
    [] k \in {"del", "reset", "transform"} -> {<<k, a>> : a \in Here(s)}
    [] k \in {"mctor", "cctor"} -> {<<k, a, b>> : a \in Gone(s), b \in Here(s)}
    [] k \in {"massign", "cassign"} -> {<<k, a, b>> : a \in Here(s), b \in Here(s)}
    [] k = "cmp" -> {<<k, a, b>> : a \in Here(s), b \in Here(s)}
    [] k = "cvassign" -> {<<k, a, v>> : a \in Here(s), v \in Vals}
    [] k = "swap" -> {<<k, a, b, f>> : a \in Here(s), b \in Here(s), f \in 0..1}
    [] k = "resetp" -> {<<k, a, v>> : a \in Here(s), v \in Vals}
    [] k = "release" -> {<<k, a>> : a \in RelOk(s)}
    [] k = "newraw" -> IF s.raw = 0 THEN {<<k, v>> : v \in Vals} ELSE {}
    [] k = "delraw" -> IF RawFree(s) THEN {<<k>>} ELSE {}
    [] k = "adopt" -> IF RawFree(s) THEN {<<k, a>> : a \in IF s.c.kind \in {"unique", "maybe"} THEN P(s) ELSE Gone(s)} ELSE {}
    [] k = "lend" -> IF s.raw # 0 THEN {<<k, a>> : a \in P(s)} ELSE {}
    [] k = "set" -> {<<k, a, v, f>> : a \in Full(s), v \in Vals, f \in 0..1}
    [] k = "assignv" -> {<<k, a, v, f>> : a \in Here(s), v \in Vals, f \in 0..1}
    [] k = "getout" -> {<<k, a, v>> : a \in Here(s) \ Full(s), v \in Vals}
    [] k = "and_then" -> {<<k, a>> : a \in Here(s)}
    [] k = "or_else" -> {<<k, a, v>> : a \in Here(s), v \in Vals}
    [] k = "at" -> {<<k, a, p, f>> : a \in Here(s), p \in 0..3, f \in 0..1}

FreeId(s) == MinS({j \in Ids(s) : s.val[j] = 0})
Put(s, a, st, j, ow) == [s EXCEPT !.st[a] = st, !.id[a] = j, !.own[a] = ow]
\* release whatever place a refers to and drop objects without owner
GC(s) == [s EXCEPT !.val = [j \in Ids(s) |-> IF Owners(s, j) = {} /\ s.raw # j THEN 0 ELSE s.val[j]]]
Null(s, a) == GC(Put(s, a, 1, 0, FALSE))
Away(s, a) == GC(Put(s, a, 0, 0, FALSE))
Make(s, a, v) == LET j == FreeId(s) IN Put([s EXCEPT !.val[j] = v], a, 2, j, TRUE)
\* place a takes over what b holds; b is left null
Take1(s, a, b) == LET x == Put(s, a, s.st[b], s.id[b], s.own[b]) IN GC(Put(x, b, 1, 0, FALSE))
Copy(s, a, b) == IF s.st[b] = 1 THEN Null(s, a)
                 ELSE IF Shared(s) THEN GC(Put(s, a, 2, s.id[b], TRUE))
                 ELSE IF s.st[a] = 2 THEN [s EXCEPT !.val[s.id[a]] = s.val[s.id[b]]]
                 ELSE Make(s, a, s.val[s.id[b]])
Swap(s, a, b) == [s EXCEPT !.st = [@ EXCEPT ![a] = s.st[b], ![b] = s.st[a]], !.id = [@ EXCEPT ![a] = s.id[b], ![b] = s.id[a]],
                           !.own = [@ EXCEPT ![a] = s.own[b], ![b] = s.own[a]]]
\* poly_value: the value moves, both keep an object
MoveVal(s, a, b) == LET v == s.val[s.id[b]]
                        x == IF s.st[a] = 2 THEN [s EXCEPT !.val[s.id[a]] = v] ELSE Make(s, a, v)
                    IN [x EXCEPT !.val[s.id[b]] = W]
Value(s, i) == IF s.st[i] = 2 THEN s.val[s.id[i]] ELSE 0

\* the new state and the operation specific result
Eff(s, o) ==
  LET k == o[1]  a == o[2] IN
  CASE k \in {"new", "newc"} -> [s |-> Make(s, a, o[3]), x |-> <<>>]
    [] k = "null" -> [s |-> Null(s, a), x |-> <<>>]
    [] k = "del" -> [s |-> Away(s, a), x |-> <<>>]
    [] k = "reset" -> [s |-> Null(s, a), x |-> <<>>]
    [] k = "mctor" -> [s |-> IF s.c.kind = "poly" THEN MoveVal(s, a, o[3]) ELSE Take1(s, a, o[3]), x |-> <<>>]
    [] k = "massign" -> [s |-> IF a = o[3] THEN s ELSE IF s.c.kind = "poly" THEN MoveVal(s, a, o[3])
                               ELSE IF s.c.kind = "copiable" THEN Swap(s, a, o[3]) ELSE Take1(s, a, o[3]), x |-> <<>>]
    [] k \in {"cctor", "cassign"} -> [s |-> IF a = o[3] THEN s ELSE Copy(s, a, o[3]), x |-> <<>>]
    [] k = "cvassign" -> [s |-> Make(Null(s, a), a, o[3]), x |-> <<>>]
    [] k = "swap" -> [s |-> Swap(s, a, o[3]), x |-> <<>>]
    [] k = "resetp" -> [s |-> Make(Null(s, a), a, o[3]), x |-> <<>>]
    [] k = "release" -> [s |-> IF s.st[a] = 2 /\ s.own[a] THEN LET j == s.id[a] IN Put([s EXCEPT !.raw = j], a, 1, 0, FALSE) ELSE Put(s, a, 1, 0, FALSE),
                         x |-> <<Value(s, a)>>]
    [] k = "newraw" -> [s |-> LET j == FreeId(s) IN [s EXCEPT !.val[j] = o[2], !.raw = j], x |-> <<>>]
    [] k = "delraw" -> [s |-> GC([s EXCEPT !.raw = 0]), x |-> <<>>]
    [] k = "adopt" -> [s |-> GC(Put([s EXCEPT !.raw = 0], a, 2, s.raw, TRUE)), x |-> <<>>]
    [] k = "lend" -> [s |-> GC(Put(s, a, 2, s.raw, FALSE)), x |-> <<>>]
    [] k = "set" -> [s |-> [s EXCEPT !.val[s.id[a]] = o[3]], x |-> <<>>]
    [] k = "assignv" -> [s |-> IF s.st[a] = 2 THEN [s EXCEPT !.val[s.id[a]] = o[3]] ELSE Make(s, a, o[3]), x |-> <<>>]
    [] k = "getout" -> [s |-> Make(s, a, o[3]), x |-> <<>>]
    \* and_then hands the handle to the function when it is not null; the function consumes it
    [] k = "and_then" -> [s |-> IF s.st[a] = 2 THEN Null(s, a) ELSE s, x |-> <<B(s.st[a] = 2), Value(s, a)>>]
    [] k = "or_else" -> [s |-> IF s.st[a] = 2 THEN s ELSE Make(s, a, o[3]), x |-> <<B(s.st[a] # 2)>>]
    [] k = "transform" -> [s |-> s, x |-> <<1, Value(s, a)>>]
    [] k = "at" -> [s |-> s, x |-> IF s.st[a] = 2 /\ o[3] < K(s) THEN <<0, Value(s, a)>> ELSE <<1>>]
    [] k = "cmp" -> [s |-> s, x |-> <<>>]
Step(s, o) == [s |-> Eff(s, o).s, r |-> <<>>]

\* six comparison results  ==, !=, <, <=, >, >=
EqR == <<1, 0, 0, 1, 0, 1>>  LtR == <<0, 1, 1, 1, 0, 0>>  GtR == <<0, 1, 0, 0, 1, 1>>
CmpOk(s, a, b, r) ==
  IF s.c.kind = "value" THEN
       LET x == Value(s, a)  y == Value(s, b) IN
       IF x = W \/ y = W THEN r \in {EqR, LtR, GtR} ELSE r = (IF x < y THEN LtR ELSE IF x > y THEN GtR ELSE EqR)
  ELSE IF s.c.kind = "copiable" THEN r = (IF s.id[a] = s.id[b] THEN <<1, 0>> ELSE <<0, 1>>)
  ELSE IF s.id[a] = s.id[b] THEN r = EqR ELSE r \in {LtR, GtR}

Alive(s) == Cardinality({j \in Ids(s) : s.val[j] # 0}) * K(s)
RepOf(s, j) == IF j = 0 THEN 0 ELSE IF Refs(s, j) = {} THEN s.c.n + 1 ELSE MinS(Refs(s, j))
Place(s, i) == <<s.st[i], Value(s, i), RepOf(s, s.id[i]), IF Shared(s) /\ s.st[i] = 2 THEN Cardinality(Refs(s, s.id[i])) ELSE 0>>
Created(s, o) == IF o[1] \in {"new", "newc", "cvassign", "resetp", "newraw", "getout"} THEN 1
                 ELSE IF o[1] = "or_else" /\ s.st[o[2]] # 2 THEN 1 ELSE 0
Obs(s) == Flat([i \in P(s) |-> Place(s, i)]) \o <<IF s.raw = 0 THEN 0 ELSE s.val[s.raw], RepOf(s, s.raw)>>
Killed(s, o, t) == IF Counts(s) THEN Alive(s) + K(s) * Created(s, o) - Alive(t) ELSE -1
Like(e, r) == Len(e) = Len(r) /\ \A i \in 1..Len(e) : e[i] = r[i] \/ e[i] = W
Base(s, o, t) == <<Alive(t)>> \o <<Killed(s, o, t)>> \o Obs(t)
Fits(s, o, t, x, r) ==
  LET b == Base(s, o, t)  n == Len(b) IN
  /\ Len(r) >= n /\ Like(b, SubSeq(r, 1, n))
  /\ IF o[1] = "cmp" THEN CmpOk(s, o[2], o[3], SubSeq(r, n + 1, Len(r))) ELSE Like(x, SubSeq(r, n + 1, Len(r)))
\* copiable_unique_ptr may also leave the source of a move assignment null
Alt(s, o) == {Eff(s, o)} \cup (IF o[1] = "massign" /\ s.c.kind = "copiable" /\ o[2] # o[3] THEN {[s |-> Take1(s, o[2], o[3]), x |-> <<>>]} ELSE {})
Post(s, o, r) == {e.s : e \in {z \in Alt(s, o) : Fits(s, o, z.s, z.x, r)}}
Expect(s, o) == LET e == Eff(s, o) IN <<Base(s, o, e.s), e.x>>
=============================================================================
