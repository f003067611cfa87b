------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* daw::graph_t and the graph algorithms.                                  *)
(* State: k = number of ids issued (ids 0..k-1 are never reused),          *)
(* v[i] = value of id i-1 (0 when the node does not exist), e = set of     *)
(* directed edges.  Every result starts with a dump of the whole graph:    *)
(*   <<size, then per id: exists, value, mask of out-edges, of in-edges>>  *)
(* followed by the operation specific answer.                              *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Vals, Edits, Queries, Configs

CInit(c) == [m |-> c.m, k |-> Len(c.v), v |-> [i \in 1..c.m |-> IF i <= Len(c.v) THEN c.v[i] ELSE 0],
             e |-> {<<c.e[i][1], c.e[i][2]>> : i \in 1..Len(c.e)}]
\* a set of pairs as a sequence (for configurations)
RECURSIVE SetToSeqs(_)
SetToSeqs(X) == IF X = {} THEN <<>> ELSE LET p == CHOOSE z \in X : TRUE IN <<p>> \o SetToSeqs(X \ {p})
Nodes(s) == {i - 1 : i \in {j \in 1..s.m : s.v[j] # 0}}
V(s, n) == s.v[n + 1]
Outs(s, n) == {b \in Nodes(s) : <<n, b>> \in s.e}
InN(s, n) == {a \in Nodes(s) : <<a, n>> \in s.e}
Inv(s) == /\ \A p \in s.e : p[1] \in Nodes(s) /\ p[2] \in Nodes(s)
          /\ s.k <= s.m /\ \A i \in 1..s.m : i > s.k => s.v[i] = 0

EditKinds == {"add", "rm", "de", "ue", "rde", "re", "set", "copy"}
QueryKinds == {"has", "fbv", "fbv_c", "roots", "leaves", "find", "visit", "cmp", "topo", "rtopo", "topo_rng", "rtopo_rng", "bfs", "dfs", "mst"}
Kinds(s) == Edits \cup Queries
Pairs(s) == Nodes(s) \X Nodes(s)
Roots(s) == {n \in Nodes(s) : InN(s, n) = {}}
Ops(s, k) ==
  CASE k = "add" -> IF s.k < s.m THEN {<<k, v>> : v \in Vals} ELSE {}
    [] k = "rm" -> {<<k, n>> : n \in Nodes(s)}
    [] k \in {"de", "ue", "rde", "re"} -> {<<k, p[1], p[2]>> : p \in Pairs(s)}
    [] k = "set" -> {<<k, n, v>> : n \in Nodes(s), v \in Vals}
    [] k = "copy" -> {<<k, f>> : f \in 0..2}
    [] k = "has" -> {<<k, n>> : n \in 0..(s.m - 1)}
    [] k \in {"fbv", "fbv_c"} -> {<<k, v>> : v \in Vals}
    [] k \in {"roots", "leaves"} -> {<<k>>}
    [] k = "find" -> {<<k, v, f>> : v \in Vals, f \in 0..1}
    [] k = "visit" -> {<<k, v, f>> : v \in Vals, f \in 0..3}
    [] k = "cmp" -> {<<k, p[1], p[2], f>> : p \in Pairs(s), f \in 0..4}
    [] k \in {"topo", "rtopo"} -> {<<k, o, f>> : o \in 0..2, f \in 0..1}
    [] k \in {"topo_rng", "rtopo_rng"} -> {<<k, o, f>> : o \in 0..2, f \in 0..3}
    [] k \in {"bfs", "dfs"} -> {<<k, n, o, f>> : n \in Nodes(s), o \in 0..2, f \in 0..1}
    [] k = "mst" -> IF Cardinality(Roots(s)) <= 1 THEN {<<k>>} ELSE {}

Gone(s, n) == [s EXCEPT !.v[n + 1] = 0, !.e = {p \in @ : p[1] # n /\ p[2] # n}]
\* nodes that can be ordered: all of whose predecessors can be ordered
RECURSIVE Orderable(_, _)
Orderable(s, D) == LET N == {n \in Nodes(s) : InN(s, n) \subseteq D} IN IF N = D THEN D ELSE Orderable(s, N)
RECURSIVE Reach(_, _)
Reach(s, D) == LET N == D \cup UNION {Outs(s, n) : n \in D} IN IF N = D THEN D ELSE Reach(s, N)

\* comparison directions: 0 = unordered, 1 = less, 2 = greater
Before(o, a, b) == IF o = 1 THEN a < b ELSE IF o = 2 THEN a > b ELSE FALSE
\* every step takes a node that is ready; sorted walks take the last ready one in the given order
TopoOk(s, q, o) ==
  /\ Ran(q) = Orderable(s, {}) /\ Len(q) = Cardinality(Ran(q))
  /\ \A i \in 1..Len(q) : LET D == {q[j] : j \in 1..(i - 1)}
                              R == {n \in Nodes(s) \ D : InN(s, n) \subseteq D} IN
       q[i] \in R /\ \A n \in R : ~Before(o, V(s, q[i]), V(s, n))
Open(s, D) == {n \in D : Outs(s, n) \ D # {}}
NextOk(s, D, u, x, o) == x \in Outs(s, u) \ D /\ \A n \in Outs(s, u) \ D : ~Before(o, V(s, n), V(s, x))
IdxOf(q, x) == MinS({i \in 1..Len(q) : q[i] = x})
\* depth first: continue from the most recently visited node that has an unvisited successor
DfsOk(s, q, n, o) ==
  /\ Len(q) = Cardinality(Ran(q)) /\ Ran(q) = Reach(s, {n}) /\ q[1] = n
  /\ \A i \in 2..Len(q) : LET D == {q[j] : j \in 1..(i - 1)}
                              u == q[MaxS({IdxOf(q, x) : x \in Open(s, D)})] IN NextOk(s, D, u, q[i], o)
\* breadth first: continue from the earliest visited node that has an unvisited successor
RECURSIVE Dedup(_, _)
Dedup(q, D) == IF q = <<>> THEN <<>> ELSE IF Head(q) \in D THEN Dedup(Tail(q), D) ELSE <<Head(q)>> \o Dedup(Tail(q), D \cup {Head(q)})
BfsOk(s, qq, n, o) ==
  LET q == Dedup(qq, {}) IN
  /\ Ran(q) = Reach(s, {n}) /\ q[1] = n
  /\ \A i \in 2..Len(q) : LET D == {q[j] : j \in 1..(i - 1)}
                              u == q[MinS({IdxOf(q, x) : x \in Open(s, D)})] IN NextOk(s, D, u, q[i], o)
\* spanning tree of the nodes reachable from the only root; edges elsewhere are untouched
TreeOk(s, t) ==
  IF Roots(s) = {} THEN t.e = s.e
  ELSE LET r == CHOOSE n \in Roots(s) : TRUE  R == Reach(s, {r})  T == {p \in t.e : p[1] \in R} IN
       /\ t.e \subseteq s.e /\ {p \in s.e : p[1] \notin R} \subseteq t.e
       /\ \A n \in R \ {r} : Cardinality({p \in T : p[2] = n}) = 1
       /\ Reach(t, {r}) = R
RECURSIVE AnyTree(_, _, _)
AnyTree(s, D, T) == LET C == {p \in s.e : p[1] \in D /\ p[2] \notin D} IN
                    IF C = {} THEN T ELSE LET p == CHOOSE p \in C : TRUE IN AnyTree(s, D \cup {p[2]}, T \cup {p})
Mst(s) == IF Roots(s) = {} THEN s ELSE LET r == CHOOSE n \in Roots(s) : TRUE IN
          [s EXCEPT !.e = AnyTree(s, {r}, {}) \cup {p \in s.e : p[1] \notin Reach(s, {r})}]

Step(s, o) ==
  LET k == o[1] IN
  [s |-> CASE k = "add" -> [s EXCEPT !.k = @ + 1, !.v[s.k + 1] = o[2]]
           [] k = "rm" -> Gone(s, o[2])
           [] k = "de" -> [s EXCEPT !.e = @ \cup {<<o[2], o[3]>>}]
           [] k = "ue" -> [s EXCEPT !.e = @ \cup {<<o[2], o[3]>>, <<o[3], o[2]>>}]
           [] k = "rde" -> [s EXCEPT !.e = @ \ {<<o[2], o[3]>>}]
           [] k = "re" -> [s EXCEPT !.e = @ \ {<<o[2], o[3]>>, <<o[3], o[2]>>}]
           [] k = "set" -> [s EXCEPT !.v[o[2] + 1] = o[3]]
           [] k = "visit" /\ o[3] = 1 -> [s EXCEPT !.v = [i \in 1..s.m |-> IF s.v[i] # 0 /\ s.v[i] < o[2] THEN o[2] ELSE s.v[i]]]
           [] k = "mst" -> Mst(s)
           [] OTHER -> s, r |-> <<>>]

Mask(S) == SumSeq([i \in 1..Cardinality(S) |-> Pow(2, SetSeq(S)[i])])
Dump(s) == <<Cardinality(Nodes(s))>> \o Flat([i \in 1..s.m |-> IF s.v[i] = 0 THEN <<0, 0, 0, 0>> ELSE <<1, s.v[i], Mask(Outs(s, i - 1)), Mask(InN(s, i - 1))>>])
ND(s) == 1 + 4 * s.m
Bit(x, b) == (x \div Pow(2, b)) % 2
\* the graph a dump describes (used for mst, whose choice of tree is free)
FromDump(s, r) == [s EXCEPT !.e = {p \in s.e : Bit(r[1 + 4 * p[1] + 3], p[2]) = 1}]
SameSet(q, S) == Len(q) = Cardinality(S) /\ Ran(q) = S
AnsOk(s, t, o, q) ==
  LET k == o[1] IN
  CASE k = "add" -> q = <<s.k>>
    [] k = "has" -> q = <<B(o[2] \in Nodes(s))>>
    [] k = "fbv" -> SameSet(q, {n \in Nodes(s) : V(s, n) = o[2]})
    [] k = "fbv_c" -> SameSet(q, {n \in Nodes(s) : V(s, n) < o[2]})
    [] k = "roots" -> SameSet(q, Roots(s))
    [] k = "leaves" -> SameSet(q, {n \in Nodes(s) : Outs(s, n) = {}})
    [] k = "find" -> SameSet(q, {n \in Nodes(s) : V(s, n) >= o[2]})
    [] k = "visit" -> SameSet(q, IF o[3] \in {0, 1} THEN {n \in Nodes(s) : V(s, n) < o[2]} ELSE Nodes(s))
    [] k = "cmp" -> q = <<B(o[2] = o[3]), B(o[2] # o[3])>> \o (IF o[4] = 4 THEN <<>> ELSE <<B(o[2] < o[3])>>)
    [] k = "topo" -> TopoOk(s, q, o[2])
    [] k = "rtopo" -> TopoOk(s, Rev(q), o[2])
    [] k = "topo_rng" -> /\ Len(q) >= 2 /\ q[1] = Cardinality(Orderable(s, {})) /\ q[2] = B(q[1] = 0)
                         /\ TopoOk(s, IF o[3] >= 2 THEN Rev(Drop(q, 2)) ELSE Drop(q, 2), o[2])
    [] k = "rtopo_rng" -> /\ Len(q) >= 2 /\ q[1] = Cardinality(Orderable(s, {})) /\ q[2] = B(q[1] = 0)
                          /\ TopoOk(s, IF o[3] >= 2 THEN Drop(q, 2) ELSE Rev(Drop(q, 2)), o[2])
    [] k = "bfs" -> q # <<>> /\ BfsOk(s, q, o[2], o[3])
    [] k = "dfs" -> q # <<>> /\ DfsOk(s, q, o[2], o[3])
    [] OTHER -> q = <<>>
Post(s, o, r) ==
  IF Len(r) < ND(s) THEN {}
  ELSE LET t == IF o[1] = "mst" THEN FromDump(s, r) ELSE Step(s, o).s IN
       IF Take(r, ND(s)) = Dump(t) /\ AnsOk(s, t, o, Drop(r, ND(s))) /\ (o[1] = "mst" => TreeOk(s, t)) THEN {t} ELSE {}
Expect(s, o) == Dump(Step(s, o).s)
=============================================================================
