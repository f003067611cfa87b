-------------------------------- MODULE Util --------------------------------
(* Sequence helpers shared by the component specifications. *)
EXTENDS Integers, Sequences, FiniteSets
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
B(x) == IF x THEN 1 ELSE 0
Rep(n, v) == [i \in 1..n |-> v]
Take(q, n) == SubSeq(q, 1, Min(n, Len(q)))
Drop(q, n) == SubSeq(q, n + 1, Len(q))
\* insert the sequence x before 0-based position p
Ins(q, p, x) == SubSeq(q, 1, p) \o x \o SubSeq(q, p + 1, Len(q))
\* remove 0-based range [a, b)
Cut(q, a, b) == SubSeq(q, 1, a) \o SubSeq(q, b + 1, Len(q))
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Sel(q, P(_)) == SelectSeq(q, P)
Ran(q) == {q[i] : i \in 1..Len(q)}
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
SeqsN(S, n) == [1..n -> S]
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
\* lexicographic less-than on integer sequences
RECURSIVE LexLt(_, _)
LexLt(a, b) == IF b = <<>> THEN FALSE
               ELSE IF a = <<>> THEN TRUE
               ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
               ELSE LexLt(Tail(a), Tail(b))
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
IsSuffixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, Len(b) - Len(a) + 1, Len(b)) = a
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
\* number of occurrences
Cnt(q, v) == Cardinality({i \in 1..Len(q) : q[i] = v})
IsPerm(a, b) == Len(a) = Len(b) /\ \A v \in Ran(a) \cup Ran(b) : Cnt(a, v) = Cnt(b, v)
\* sorted copy (ascending), by insertion
RECURSIVE InsSorted(_, _)
InsSorted(q, v) == IF q = <<>> THEN <<v>> ELSE IF v < Head(q) THEN <<v>> \o q ELSE <<Head(q)>> \o InsSorted(Tail(q), v)
RECURSIVE Sorted(_)
Sorted(q) == IF q = <<>> THEN <<>> ELSE InsSorted(Sorted(Tail(q)), Head(q))
\* set of integers as an ascending sequence
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET m == MinS(S) IN <<m>> \o SetSeq(S \ {m})
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
=============================================================================
