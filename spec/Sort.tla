------------------------------- MODULE Sort -------------------------------
(***************************************************************************)
(* daw::sort, daw::sort_N and daw::sort_to.                                *)
(* Elements are codes key * 4096 + id.  A comparison is a strict weak      *)
(* order: 0 key ascending, 1 key descending, 2 code ascending,             *)
(* 3 code descending.                                                      *)
(*                                                                         *)
(* Two kinds of operations:                                                *)
(*  "sort"/"gen": run the real code on an input; the result has to be an   *)
(*      ordered permutation of the input and nothing around it may change. *)
(*  "net" n: the driver extracts the comparator network of sort_N from the *)
(*      running code (positions compared, data movement after each         *)
(*      answer).  When the code is data oblivious, the network is checked  *)
(*      here for ALL inputs by the 0-1 principle.  The set of reachable    *)
(*      0-1 patterns is kept factored into blocks of channels that have    *)
(*      not been compared with each other yet, which makes n = 32 easy.    *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Kinds0, Inputs, Hows, GenN, GenPat, GenSeeds, Cmps, NetN, Configs

CInit(c) == [d |-> 0]
Inv(s) == s.d = 0
\* a kind is <<operation, length, pattern>>, so that random selection stays cheap
Kinds(s) == UNION {IF k \in {"gen", "gennet"} THEN {<<k, n, p>> : n \in GenN, p \in GenPat} ELSE {<<k, 0, 0>>} : k \in Kinds0}
Nets == {"n3", "n4", "n5", "n6", "n7", "n8", "n16", "n32"}
NetLen(h) == CASE h = "n3" -> 3 [] h = "n4" -> 4 [] h = "n5" -> 5 [] h = "n6" -> 6 [] h = "n7" -> 7 [] h = "n8" -> 8
               [] h = "n16" -> 16 [] h = "n32" -> 32 [] h = "ins3" -> 3 [] OTHER -> 0
Fits(h, n) == IF h \in Nets THEN n = NetLen(h) ELSE IF h = "ins" THEN n >= 3 ELSE TRUE
\* all weak orders of n elements, as rank sequences 0..k
WeakOrders(n) == {q \in [1..n -> 0..(n - 1)] : \A i \in 1..n : q[i] = 0 \/ \E j \in 1..n : q[j] = q[i] - 1}
Perms(n) == {q \in [1..n -> 0..(n - 1)] : Cardinality({q[i] : i \in 1..n}) = n}
Bits(n) == [1..n -> 0..1]

\* ---- generated inputs -------------------------------------------------
RECURSIVE Lcg(_, _, _)
Lcg(x, n, acc) == IF n = 0 THEN acc ELSE LET y == (x * 75 + 74) % 65537 IN Lcg(y, n - 1, Append(acc, y))
Rnd(n, seed) == Lcg((seed * 7919 + 13) % 65537, n, <<>>)
Key(n, pat, R, i) ==          \* i is 1-based
  CASE pat = 0 -> R[i] % 1000
    [] pat = 1 -> i
    [] pat = 2 -> n - i
    [] pat = 3 -> IF 2 * i <= n THEN i ELSE n - i
    [] pat = 4 -> IF R[i] % 8 = 0 THEN R[i] % (n + 1) ELSE i
    [] pat = 5 -> 7
    [] pat = 6 -> R[i] % 2
    [] pat = 7 -> IF i = 1 + (R[1] % n) THEN R[n] % (n + 1) ELSE i
    [] pat = 8 -> R[i] % 4
    [] pat = 9 -> (R[i] % 40) - 20
    [] pat = 10 -> (i * 7) % 10
    [] pat = 11 -> IF i = n THEN 0 ELSE i
Input(n, pat, seed) == LET R == Rnd(n, seed) IN [i \in 1..n |-> Key(n, pat, R, i) * 4096 + i - 1]
FromKeys(q) == [i \in 1..Len(q) |-> q[i] * 4096 + i - 1]

Ops(s, kk) == LET k == kk[1] IN
  CASE k = "sort" -> {<<k, h, q, c>> : h \in Hows, q \in Inputs, c \in Cmps}
    [] k = "gen" -> {<<k, h, kk[2], kk[3], x, c>> : h \in Hows, x \in GenSeeds, c \in Cmps}
    [] k = "gennet" -> {<<"gen", "n" \o ToString(kk[2]), kk[2], kk[3], x, c>> : x \in GenSeeds, c \in Cmps}
    [] k = "net" -> {<<k, n, v>> : n \in NetN, v \in 0..1}

Lt(c, a, b) == CASE c = 0 -> a \div 4096 < b \div 4096 [] c = 1 -> a \div 4096 > b \div 4096 [] c = 2 -> a < b [] c = 3 -> a > b
Ordered(c, q) == \A i \in 1..(Len(q) - 1) : ~Lt(c, q[i + 1], q[i])
\* ids make the elements of an input distinct, so equal sets and equal lengths mean permutation
SortOk(c, in, r) == /\ Len(r) = Len(in) + 2
                    /\ r[1] = 0 /\ r[2] = Len(in)          \* nothing around the range changed; end position
                    /\ LET q == SubSeq(r, 3, Len(r)) IN Ran(q) = Ran(in) /\ Ordered(c, q)

\* ---- networks -----------------------------------------------------------
\* step t of a network: compare(a[i], a[j]); on TRUE do m1, on FALSE do m0 (0 nothing, 1 exchange i and j)
Act(P, m, i, j) == IF m = 1 /\ (i \in P) # (j \in P) THEN (IF i \in P THEN (P \ {i}) \cup {j} ELSE (P \ {j}) \cup {i}) ELSE P
\* v = 0: ascending comparison, v = 1: descending
Less(P, i, j, v) == IF v = 0 THEN i \notin P /\ j \in P ELSE i \in P /\ j \notin P
CE(P, t, v) == Act(P, IF Less(P, t[1], t[2], v) THEN t[3] ELSE t[4], t[1], t[2])
BlockOf(bs, i) == CHOOSE b \in bs : i \in b.ch
NetStep(bs, t, v) ==
  LET b1 == BlockOf(bs, t[1])
      b2 == BlockOf(bs, t[2])
      m == IF b1 = b2 THEN b1 ELSE [ch |-> b1.ch \cup b2.ch, ps |-> {p \cup q : p \in b1.ps, q \in b2.ps}]
  IN (bs \ {b1, b2}) \cup {[ch |-> m.ch, ps |-> {CE(p, t, v) : p \in m.ps}]}
RECURSIVE NetRun(_, _, _, _)
NetRun(bs, ts, k, v) == IF k > Len(ts) THEN bs ELSE NetRun(NetStep(bs, ts[k], v), ts, k + 1, v)
NetSorts(n, ts, v) ==
  LET bs == NetRun({[ch |-> {i}, ps |-> {{}, {i}}] : i \in 0..(n - 1)}, ts, 1, v) IN
  /\ Cardinality(bs) = 1
  /\ \A b \in bs : \A p \in b.ps : \A i \in p : IF v = 0 THEN \A j \in i..(n - 1) : j \in p ELSE \A j \in 0..i : j \in p
Quads(r) == [k \in 1..((Len(r) - 1) \div 4) |-> <<r[4 * k - 2], r[4 * k - 1], r[4 * k], r[4 * k + 1]>>]
\* r[1] = 1 when the code is oblivious; otherwise (e.g. an insertion sort) only the other operations decide
NetOk(n, v, r) == r[1] = 0 \/ NetSorts(n, Quads(r), v)

InputOf(o) == IF o[1] = "sort" THEN FromKeys(o[3]) ELSE Input(o[3], o[4], o[5])
CmpOf(o) == IF o[1] = "sort" THEN o[4] ELSE o[6]
LenOf(o) == IF o[1] = "sort" THEN Len(o[3]) ELSE o[3]
OkOp(o) == o[1] = "net" \/ Fits(o[2], LenOf(o))
Step(s, o) == [s |-> s, r |-> <<>>]
Post(s, o, r) ==
  IF ~OkOp(o) THEN (IF r = <<-1>> THEN {s} ELSE {})
  ELSE IF o[1] = "net" THEN (IF NetOk(o[2], o[3], r) THEN {s} ELSE {})
  ELSE IF SortOk(CmpOf(o), InputOf(o), r) THEN {s} ELSE {}
Expect(s, o) == IF o[1] = "net" THEN <<"a network that sorts every 0-1 input">> ELSE <<"ordered permutation of", InputOf(o)>>
=============================================================================
