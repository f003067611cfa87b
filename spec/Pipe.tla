-------------------------------- MODULE Pipe --------------------------------
(***************************************************************************)
(* Pipelines. A stage is a function on finite sequences of integers; a     *)
(* pipeline is their composition. Each operation runs one pipeline on all  *)
(* sequences over 1..a up to a length and returns what it produced for     *)
(* each, terminated by -1. There is no state.                              *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Grp, Configs

CInit(c) == [n |-> 0]
Inv(s) == s.n = 0

(* the sources of one operation: shorter ones first, then in lexicographic order *)
RECURSIVE SeqRow(_, _)
SeqRow(n, a) == IF n = 0 THEN << <<>> >>
                ELSE LET q == SeqRow(n - 1, a) IN [i \in 1..(a * Len(q)) |-> q[((i - 1) \div a) + 1] \o << ((i - 1) % a) + 1 >>]
RECURSIVE Rows(_, _)
Rows(n, a) == IF n = 0 THEN SeqRow(0, a) ELSE Rows(n - 1, a) \o SeqRow(n, a)

(* definitions of the stages *)
SelF(q, f(_)) == SelectSeq(q, f)
MapF(q, f(_)) == [i \in 1..Len(q) |-> f(q[i])]
\* length of the longest prefix whose elements all satisfy f
Lead(q, f(_)) == LET S == {i \in 1..Len(q) : ~f(q[i])} IN IF S = {} THEN Len(q) ELSE MinS(S) - 1
RECURSIVE Code(_)
Code(q) == IF q = <<>> THEN 1 ELSE Code(SubSeq(q, 1, Len(q) - 1)) * 10 + (q[Len(q)] % 10)
RECURSIVE Chunks(_, _)
Chunks(q, n) == IF q = <<>> THEN <<>> ELSE <<Take(q, Min(n, Len(q)))>> \o Chunks(Drop(q, Min(n, Len(q))), n)
Slides(q, n) == [i \in 1..Max(0, Len(q) - n + 1) |-> SubSeq(q, i, i + n - 1)]
RECURSIVE Dedup(_)
Dedup(q) == IF Len(q) <= 1 THEN q ELSE IF q[1] = q[2] THEN Dedup(Tail(q)) ELSE <<q[1]>> \o Dedup(Tail(q))
RECURSIVE EveryN(_, _)
EveryN(q, n) == IF q = <<>> THEN <<>> ELSE <<Head(q)>> \o EveryN(Drop(q, Min(n, Len(q))), n)
\* parts between delimiters; a delimiter at the very end starts no further part
RECURSIVE SplitAt(_, _)
SplitAt(q, d) == \* d: for each element whether it is a delimiter
  IF q = <<>> THEN <<>>
  ELSE LET n == Lead(d, LAMBDA x : ~x) IN <<Take(q, n)>> \o SplitAt(Drop(q, Min(n + 1, Len(q))), Drop(d, Min(n + 1, Len(q))))
SplitF(q, f(_)) == SplitAt(q, [i \in 1..Len(q) |-> f(q[i])])
Extra == <<7, 8, 9>>
Odd(x) == x % 2 = 1
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF hi < x THEN hi ELSE x

Stage(k, p, q) ==
  CASE k = 1 -> MapF(q, LAMBDA x : 2 * x + 1)
    [] k = 2 -> SelF(q, Odd)
    [] k = 3 -> Take(q, Min(p, Len(q)))
    [] k = 4 -> Drop(q, Min(p, Len(q)))
    [] k = 5 -> Take(q, Lead(q, LAMBDA x : x < p))
    [] k = 6 -> Take(q, Lead(q, LAMBDA x : x < p))
    [] k = 7 -> Drop(q, Lead(q, LAMBDA x : x < p))
    [] k = 8 -> Drop(q, Lead(q, LAMBDA x : x < p))
    [] k = 9 -> Rev(q)
    [] k = 10 -> EveryN(q, p)
    [] k = 11 -> MapF(q, LAMBDA x : Clamp(x, 2, p + 1))
    [] k = 12 -> Dedup(q)
    [] k = 13 -> MapF(Chunks(q, p), Code)
    [] k = 14 -> MapF(Slides(q, p), Code)
    [] k = 15 -> Flat(Chunks(q, p))
    [] k = 16 -> [i \in 1..Len(q) |-> (i - 1) * 100 + q[i]]
    [] k = 17 -> [i \in 1..Min(3, Len(q)) |-> Extra[i] * 1000 + q[i]]
    [] k = 18 -> MapF(SplitF(q, LAMBDA x : x = p), Code)
    [] k = 19 -> q
    [] k = 20 -> MapF(q, LAMBDA x : 4 * x)
    [] k = 21 -> [i \in 1..Len(q) |-> p + i - 1]
    [] k = 22 -> [i \in 1..Len(q) |-> q[i] * 100 + i - 1]
    [] k = 23 -> MapF(q, LAMBDA x : 3 * x + 1)
    [] k = 24 -> q
    [] OTHER -> MapF(SplitF(q, LAMBDA x : x % 2 = 0), Code)
NStages == 25
(* 3 random access, 2 bidirectional, 1 forward: what the result of a stage offers *)
Cat(k, c) == IF k \in {2, 5, 6, 10, 12, 13, 14, 15, 18, 25} THEN 1 ELSE IF k = 19 THEN 1 ELSE c
Legal(k, c) == k # 9 \/ c >= 2
SrcCat(kind) == CASE kind = 0 -> 3 [] kind = 1 -> 2 [] kind = 2 -> 1 [] OTHER -> 3
\* stages whose parameter matters, and those where it may be zero
HasP(k) == k \in {3, 4, 5, 6, 7, 8, 10, 11, 13, 14, 15, 18, 21}
Params(k) == IF ~HasP(k) THEN {1} ELSE IF k \in {3, 4} THEN {0, 1, 2, 5} ELSE {1, 2, 3}
Params2(k) == IF ~HasP(k) THEN {1} ELSE {1, 2}
Params3(k) == IF ~HasP(k) THEN {1} ELSE {2}

Emit(qs) == Flat([i \in 1..Len(qs) |-> qs[i] \o <<-1>>])
Core == {2, 4, 5, 9, 12, 13, 16, 18, 24}
Firsts == CASE Grp = 6 -> {2, 4, 5} [] Grp = 7 -> {9, 12, 13} [] OTHER -> {16, 18, 24}

(* position (from 0) of the first element satisfying f, the length if there is none *)
Pos(q, f(_)) == LET S == {i \in 1..Len(q) : f(i)} IN IF S = {} THEN Len(q) ELSE MinS(S) - 1
\* the first element no other is better than; the last one
Best(q, better(_, _)) == Pos(q, LAMBDA i : \A j \in 1..Len(q) : ~better(q[j], q[i]))
LastBest(q, better(_, _)) == LET S == {i \in 1..Len(q) : \A j \in 1..Len(q) : ~better(q[j], q[i])} IN IF S = {} THEN Len(q) ELSE MaxS(S) - 1
Opt(q) == IF q = <<>> THEN -2 ELSE q[1]
M3(x) == x % 3
Lt(a, b) == a < b
Gt(a, b) == b < a
RECURSIVE SplitSub(_, _)
SplitSub(q, d) == \* parts between occurrences of the sequence d
  LET n == Pos(q, LAMBDA i : i + Len(d) - 1 <= Len(q) /\ SubSeq(q, i, i + Len(d) - 1) = d) IN
  IF q = <<>> THEN <<>> ELSE <<Take(q, n)>> \o SplitSub(Drop(q, Min(n + Len(d), Len(q))), d)
Num(q, f(_)) == Len(SelF(q, f))
Zip2(a, b, f(_, _)) == [i \in 1..Min(Len(a), Len(b)) |-> f(a[i], b[i])]
Iota(a, n) == [i \in 1..n |-> a + i - 1]
Pad(q, n, v) == [i \in 1..n |-> IF i <= Len(q) THEN q[i] ELSE v]
NTerms == 40
Term(k, p, q) ==
  LET n == Len(q) less(x) == x < p geq(x) == x >= p IN
  CASE k \in {1, 2} -> q \o q
    [] k = 3 -> Pad(q, 3, 0)
    [] k = 4 -> Pad(q, 3, 9)
    [] k = 5 -> <<SumSeq(q), SumSeq(q)>>
    [] k = 6 -> <<n, n>>
    [] k = 7 -> <<Num(q, less)>>
    [] k = 8 -> <<Num(q, less), Num(q, geq)>>
    [] k = 9 -> <<B(p \in Ran(q)), B(p \in Ran(q))>>
    [] k = 10 -> <<B(\E x \in Ran(q) : x < p)>>
    [] k = 11 -> <<B(\E x \in Ran(q) : x % 3 = p)>>
    [] k = 12 -> LET a == Pos(q, LAMBDA i : q[i] = p) IN <<a, a>>
    [] k = 13 -> <<Pos(q, LAMBDA i : q[i] % 3 = p)>>
    [] k = 14 -> LET a == Pos(q, LAMBDA i : q[i] >= p) IN <<a, a>>
    [] k = 15 -> LET a == Pos(q, LAMBDA i : i + 1 <= n /\ q[i] = q[i + 1]) IN <<a, a>>
    [] k = 16 -> LET a == Pos(q, LAMBDA i : i + 2 <= n /\ q[i] + q[i + 1] + q[i + 2] = p + 3) IN <<a, a>>
    [] k = 17 -> <<Opt(q), Opt(SelF(q, geq))>>
    [] k = 18 -> <<IF n = 0 THEN -2 ELSE 0, IF n = 0 THEN -2 ELSE q[1] + 1>>
    [] k = 19 -> <<Best(q, Gt), Best(q, Gt)>>
    [] k = 20 -> <<Best(q, Lt)>>
    [] k = 21 -> <<Best(MapF(q, M3), Gt)>>
    [] k = 22 -> <<Best(q, Lt), Best(q, Lt)>>
    [] k = 23 -> <<Best(MapF(q, M3), Lt)>>
    [] k = 24 -> <<Best(q, Lt), LastBest(q, Gt), Best(MapF(q, M3), Gt), LastBest(MapF(q, M3), Lt)>>
    [] k = 25 -> SortSeq(q, Lt) \o SortSeq(q, Lt)
    [] k = 26 -> SortSeq(q, Gt)
    [] k = 27 -> SelF(SortSeq(q, Lt), geq)
    [] k = 28 -> q \o q
    [] k = 29 -> MapF(q, LAMBDA x : 11 * x)
    [] k = 30 -> Flat([i \in 1..n |-> Rep(q[i] - 1, q[i])])
    [] k = 31 -> q \o Rep(p - 1, 5) \o Extra
    [] k = 32 -> Zip2(q, Extra, LAMBDA a, b : a * 10 + b) \o Rev(Zip2(Extra, q, LAMBDA a, b : a * 10 + b))
    [] k = 33 -> MapF(SplitSub(q, <<1, 2>>), Code)
    [] k = 34 -> Iota(1, n)
    [] k = 35 -> Iota(-p, n) \o Iota(0, n)
    [] k = 36 -> Flat([i \in 1..n |-> <<q[i] + 5, IF q[i] < p THEN q[i] ELSE -2, Clamp(q[i], 2, p + 1), 1, q[i]>>])
    [] k = 37 -> q \o q
    [] k = 38 -> SelF(q, LAMBDA x : x \notin {1, 3})
    [] k = 39 -> <<1>>
    [] OTHER -> LET a == SelF(MapF(q, LAMBDA x : x * x), geq) IN a \o a \o a
TermP(k) == IF k \in {7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 27, 31, 35, 36, 37, 40} THEN {1, 2, 3} ELSE {1}

Kinds(s) == CASE Grp = 0 -> {"one"} [] Grp \in 1..5 -> {"two"} [] Grp \in 6..8 -> {"three"} [] OTHER -> {"term"}
Ops(s, k) ==
  CASE k = "one" -> UNION {{<<"one", kind, st, p, 5, 3>> : p \in Params(st)} : <<kind, st>> \in {x \in (0..3) \X (1..NStages) : Legal(x[2], SrcCat(x[1]))}}
    [] k = "two" -> UNION {{<<"two", x[1], x[2], p, q, 4, 3>> : p \in Params2(x[1]), q \in Params2(x[2])}
                           : x \in {y \in (1..NStages) \X (1..NStages) : ((y[1] - 1) % 5) + 1 = Grp /\ Legal(y[2], Cat(y[1], 3))}}
    [] k = "three" -> {<<"three", x[1], x[2], x[3], 2, p, 2, 4, 3>> : x \in {y \in Firsts \X Core \X Core : Legal(y[2], Cat(y[1], 3)) /\ Legal(y[3], Cat(y[2], Cat(y[1], 3)))}, p \in {1, 2}}
    [] OTHER -> UNION {{<<"term", t, p, 5, 3>> : p \in TermP(t)} : t \in 1..NTerms}

Expect(s, o) ==
  CASE o[1] = "one" -> LET qs == Rows(o[5], o[6]) IN Emit([i \in 1..Len(qs) |-> Stage(o[3], o[4], qs[i])])
    [] o[1] = "two" -> LET qs == Rows(o[6], o[7]) IN Emit([i \in 1..Len(qs) |-> Stage(o[3], o[5], Stage(o[2], o[4], qs[i]))])
    [] o[1] = "three" -> LET qs == Rows(o[8], o[9]) IN Emit([i \in 1..Len(qs) |-> Stage(o[4], o[7], Stage(o[3], o[6], Stage(o[2], o[5], qs[i])))])
    [] OTHER -> LET qs == Rows(o[4], o[5]) IN Emit([i \in 1..Len(qs) |-> Term(o[2], o[3], qs[i])])
Step(s, o) == [s |-> s, r |-> Expect(s, o)]
Post(s, o, r) == IF r = Expect(s, o) THEN {s} ELSE {}
=============================================================================
