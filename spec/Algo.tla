------------------------------- MODULE Algo -------------------------------
(***************************************************************************)
(* The range algorithms of daw::algorithm (daw_algorithm.h, algorithms/,   *)
(* daw_do_n.h) and the container algorithms of daw::container as functions *)
(* on sequences of small integers.                                         *)
(* An operation is <<f, a, b, x, y, z>>: two input sequences and three     *)
(* integer parameters (a mask encoding a predicate, a comparison, a value, *)
(* a count, a position ...).  Positions are distances from the beginning.  *)
(* Output ranges are observed as a whole buffer of Len(a) + 2 cells preset *)
(* to -5, so writes beyond the prescribed ones are visible.                *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Fs,       \* functions exercised
          ASeqs, BSeqs,   \* input sequences (model checking)
          Seeds, GLen,    \* seeds of generated inputs (simulation), length bound; {} = use ASeqs, BSeqs
          V,        \* values are 0..V-1
          Configs

CInit(c) == [d |-> c.d]
Inv(s) == s.d >= 0
Kinds(s) == IF Seeds = {} THEN {<<f, 0>> : f \in Fs} ELSE {<<f, 8 * s.d + x>> : f \in Fs, x \in 0..7}
RECURSIVE Lcg(_, _, _)
Lcg(x, n, acc) == IF n = 0 THEN acc ELSE LET y == (x * 75 + 74) % 65537 IN Lcg(y, n - 1, Append(acc, (y \div 7) % V))
GenSeq(seed) == Lcg((seed * 7919 + 13) % 65537, (seed * 31) % (GLen + 1), <<>>)
As(kk) == IF Seeds = {} THEN ASeqs ELSE {GenSeq(kk[2])}
Bs(kk) == IF Seeds = {} THEN BSeqs ELSE {GenSeq(kk[2] + 17), Take(Drop(GenSeq(kk[2]), 1), 2), Take(GenSeq(kk[2]), 2), GenSeq(kk[2])}

Masks == 0..(Pow(2, V) - 1)
P(m, x) == (m \div Pow(2, x)) % 2 = 1
Cmp(c, x, y) == CASE c = 0 -> x < y [] c = 1 -> x > y [] c = 2 -> x \div 2 < y \div 2
Eq(e, x, y) == CASE e = 0 -> x = y [] e = 1 -> x % 2 = y % 2
U(x) == 3 * x + 1
Bop(x, y) == (2 * x + y) % 1009
Equiv(c, x, y) == ~Cmp(c, x, y) /\ ~Cmp(c, y, x)
First(n, Q(_)) == LET S == {i \in 0..(n - 1) : Q(i)} IN IF S = {} THEN n ELSE MinS(S)
RECURSIVE InsBy(_, _, _)
InsBy(c, q, v) == IF q = <<>> THEN <<v>> ELSE IF Cmp(c, v, Head(q)) THEN <<v>> \o q ELSE <<Head(q)>> \o InsBy(c, Tail(q), v)
\* stable sort: insert the elements in order, after their equivalents
RECURSIVE SortByA(_, _, _)
SortByA(c, q, acc) == IF q = <<>> THEN acc ELSE SortByA(c, Tail(q), InsBy(c, acc, Head(q)))
SortBy(c, q) == SortByA(c, q, <<>>)
RECURSIVE FoldB(_, _)
FoldB(q, acc) == IF q = <<>> THEN acc ELSE FoldB(Tail(q), Bop(acc, Head(q)))
RECURSIVE SI(_, _, _)
SI(a, b, c) == IF a = <<>> \/ b = <<>> THEN <<>>
               ELSE IF Cmp(c, Head(a), Head(b)) THEN SI(Tail(a), b, c)
               ELSE IF Cmp(c, Head(b), Head(a)) THEN SI(a, Tail(b), c)
               ELSE <<Head(a)>> \o SI(Tail(a), Tail(b), c)
Map(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]
Zip(q, p, F(_, _)) == [i \in 1..Len(q) |-> F(q[i], p[i])]
\* functions by signature
FA == {"acc", "reduce", "all_equal0", "psum", "copy", "move", "fill_it", "rev", "rev_c", "psum_op", "acc_op", "moveit"}                      \* a
FAM == {"find_if", "find_if_not", "ffo", "flo", "ffr", "find_transform", "all_of", "any_of", "none_of", "count_if", "fi_if", "fio_if", "contains_if",
        "for_each_if", "copy_if", "remove_if", "consume_if", "transform_if", "transform_it"}                                        \* a, mask
FAV == {"find", "find_index", "fio", "contains", "remove", "split", "fill", "iota", "iota_s"}                                       \* a, value
FAC == {"iss", "issu", "maxe", "minmaxe", "find_unsorted", "iss_s"}                                                                 \* a, comparison
FAE == {"adj", "all_equal"}                                                                                                         \* a, equality
FAVC == {"lb", "ub", "bs"}                                                                                                          \* a, value, comparison (a sorted)
FABC == {"lex", "cmp_range", "set_int"}
FABE == {"eq4", "ne4", "search", "lexeq"}
FAB == {"ffo2", "eq3", "ne3", "map2", "map_reduce", "cpm", "cp"}
FAMM == {"find_some", "find_one", "sat1", "satall"}
FAK == {"copy_n", "move_n", "transform_n", "transform_ni", "fill_n", "ccopy_n"}
FNav == {"sadv", "snext", "sprev", "sprev1", "snext1", "begin_at", "advance_many"}
FVals == {"are_equal", "minmaxi", "clamp", "inr", "rel", "sat1v", "satallv", "tfun", "do_n", "do_n_arg", "max_item", "min_item"}
FSet == {"ext_to", "ext_all", "ext_match", "ext_mm", "try_get"}
CA == {"c_sort", "c_ssort", "c_acc", "c_acc_op", "c_tr", "c_tro", "c_max", "c_copy", "c_size", "c_pos"}
CAM == {"c_find_if", "c_rmif", "c_part", "c_spart", "c_contp", "c_copy_if"}
CAV == {"c_find", "c_rm", "c_contv"}
CAC == {"c_sortc", "c_ssortc", "c_maxc"}
RangeFs == FA \cup FAM \cup FAV \cup FAC \cup FAE \cup FAVC \cup FABC \cup FABE \cup FAB \cup FAMM \cup FAK \cup FNav \cup FVals \cup FSet \cup {"gather", "prange", "transform", "ccopy"}
ContFs == CA \cup CAM \cup CAV \cup CAC \cup {"c_copy_n", "c_posr", "c_subset", "c_append"}

\* a generated third parameter, to keep the operation sets of simulation small
Vs(kk) == IF Seeds = {} THEN 0..V ELSE {kk[2] % (V + 1), (kk[2] \div 3) % (V + 1)}
Ms(kk) == IF Seeds = {} THEN Masks ELSE {(kk[2] * 37) % Pow(2, V), (kk[2] * 5 + 1) % Pow(2, V)}
Ops(s, kk) == LET f == kk[1] IN
  CASE f \in FA \cup {"transform", "ccopy"} \cup CA -> {<<f, a, <<>>, 0, 0, 0>> : a \in As(kk)}
    [] f = "find_transform" -> {<<f, a, <<>>, m, V, 0>> : a \in As(kk), m \in Ms(kk)}
    [] f \in FAM \cup CAM -> {<<f, a, <<>>, m, 0, 0>> : a \in As(kk), m \in Ms(kk)}
    [] f \in FAV \cup CAV -> {<<f, a, <<>>, x, 0, 0>> : a \in As(kk), x \in Vs(kk)}
    [] f \in FAC \cup CAC -> {<<f, a, <<>>, c, 0, 0>> : a \in As(kk), c \in 0..2}
    [] f \in FAE -> {<<f, a, <<>>, e, 0, 0>> : a \in As(kk), e \in 0..1}
    [] f \in FAVC -> {<<f, SortBy(c, IF f = "bs" /\ a = <<>> THEN <<1>> ELSE a), <<>>, x, c, 0>> : a \in As(kk), x \in Vs(kk), c \in 0..2}
    [] f = "set_int" -> {<<f, SortBy(c, a), SortBy(c, b), c, 0, 0>> : a \in As(kk), b \in Bs(kk), c \in 0..2}
    [] f \in FABC -> {<<f, a, b, c, 0, 0>> : a \in As(kk), b \in Bs(kk), c \in 0..2}
    [] f \in FABE -> {<<f, a, b, e, 0, 0>> : a \in As(kk), b \in Bs(kk), e \in 0..1}
    [] f \in {"eq3", "ne3", "map2", "map_reduce", "cpm", "cp"} -> {<<f, o[1], o[2], 0, 0, 0>> : o \in {p \in As(kk) \X (Bs(kk) \cup As(kk)) : Len(p[1]) <= Len(p[2])}}
    [] f \in {"ffo2", "c_append"} -> {<<f, a, b, 0, 0, 0>> : a \in As(kk), b \in Bs(kk)}
    [] f \in FAMM -> {<<f, a, <<>>, m, n, 0>> : a \in As(kk), m \in Ms(kk), n \in Ms(kk)}
    [] f \in FAK -> UNION {{<<f, a, <<>>, k, 0, 0>> : k \in 0..Len(a)} : a \in As(kk)}
    [] f = "c_copy_n" -> UNION {{<<f, a, <<>>, k, 0, 0>> : k \in 0..(Len(a) + 2)} : a \in As(kk)}
    [] f \in {"c_posr", "c_subset"} -> UNION {{<<f, a, <<>>, o[1], o[2], 0>> : o \in (0..Len(a)) \X (0..Len(a))} : a \in As(kk)}
    [] f = "advance_many" -> UNION {{<<f, a, <<>>, o[1], o[2], 0>> : o \in {p \in (0..Len(a)) \X ((-Len(a))..Len(a)) : p[1] + p[2] >= 0 /\ p[1] + p[2] <= Len(a)}} : a \in As(kk)}
    [] f = "begin_at" -> UNION {{<<f, a, <<>>, k, 0, 0>> : k \in 0..(Len(a) + 2)} : a \in As(kk)}
    [] f = "sadv" -> UNION {{<<f, a, <<>>, p, d, 0>> : p \in 0..Len(a), d \in (-Len(a) - 2)..(Len(a) + 2)} : a \in As(kk)}
    [] f \in {"snext", "sprev"} -> UNION {{<<f, a, <<>>, p, d, 0>> : p \in 0..Len(a), d \in 0..(Len(a) + 2)} : a \in As(kk)}
    [] f \in {"snext1", "sprev1"} -> UNION {{<<f, a, <<>>, p, 0, 0>> : p \in 0..Len(a)} : a \in As(kk)}
    [] f = "gather" -> UNION {{<<f, a, <<>>, t, m, 0>> : t \in 0..Len(a), m \in Ms(kk)} : a \in As(kk)}
    [] f = "prange" -> UNION {{<<f, a, <<>>, n, z, 0>> : n \in 1..(Len(a) + 2), z \in 1..2} : a \in As(kk)}
    [] f = "are_equal" -> {<<f, <<x, y, z>>, <<w>>, n, 0, 0>> : x \in 0..1, y \in 0..1, z \in 0..1, w \in 0..1, n \in 1..4}
    [] f \in {"minmaxi", "inr", "rel", "clamp"} -> {<<f, <<>>, <<>>, x, y, z>> : x \in 0..3, y \in 0..3, z \in 0..3}
    [] f \in {"sat1v", "satallv"} -> {<<f, <<>>, <<>>, m, n, x>> : m \in Ms(kk), n \in Ms(kk), x \in 0..(V - 1)}
    [] f = "tfun" -> {<<f, <<>>, <<>>, x, 0, 0>> : x \in 0..4}
    [] f \in {"do_n", "do_n_arg"} -> {<<f, <<>>, <<>>, n, z, 0>> : n \in 0..6, z \in 0..1}
    [] f \in {"max_item", "min_item"} -> {<<f, <<x, y, z>>, <<>>, n, 0, 0>> : x \in 0..2, y \in 0..2, z \in 0..2, n \in 1..3}
    [] f = "ext_all" -> {<<f, a, b, 0, 0, 0>> : a \in As(kk), b \in Bs(kk)}
    [] f \in {"ext_match", "ext_mm"} -> {<<f, a, b, m, 0, 0>> : a \in As(kk), b \in Bs(kk), m \in Ms(kk)}
    [] f = "ext_to" -> {<<f, a, b, x, 0, 0>> : a \in As(kk), b \in Bs(kk), x \in Vs(kk)}
    [] f = "try_get" -> {<<f, a, <<>>, x, 0, 0>> : a \in As(kk), x \in Vs(kk)}

Buf(a, w) == <<Len(w)>> \o w \o Rep(Len(a) + 2 - Len(w), -5)
AtI(a, i) == a[i + 1]
Sorted1(a) == Sorted(a)
\* position of the first greatest / last greatest / first least
FirstMax(a, c) == First(Len(a), LAMBDA i : \A j \in 1..Len(a) : ~Cmp(c, a[i + 1], a[j]))
LastMax(a, c) == MaxS({i \in 0..(Len(a) - 1) : \A j \in 1..Len(a) : ~Cmp(c, a[i + 1], a[j])})
FirstMin(a, c) == First(Len(a), LAMBDA i : \A j \in 1..Len(a) : ~Cmp(c, a[j], a[i + 1]))
LexC(a, b, c) == LET n == Min(Len(a), Len(b))
                     k == First(n, LAMBDA i : ~Equiv(c, a[i + 1], b[i + 1])) IN
                 IF k < n THEN Cmp(c, a[k + 1], b[k + 1]) ELSE Len(a) < Len(b)
RECURSIVE SplitOn(_, _, _)
SplitOn(a, x, cur) == IF a = <<>> THEN <<cur>> ELSE IF Head(a) = x THEN <<cur>> \o SplitOn(Tail(a), x, <<>>) ELSE SplitOn(Tail(a), x, Append(cur, Head(a)))
FlatLens(pp) == <<Len(pp)>> \o Flat([i \in 1..Len(pp) |-> <<Len(pp[i])>> \o pp[i]])
RECURSIVE Pieces(_, _, _)
Pieces(a, n, sz) == IF n = 1 THEN <<a>> ELSE <<Take(a, sz)>> \o Pieces(Drop(a, Min(sz, Len(a))), n - 1, sz)
Yes(a, m) == SelectSeq(a, LAMBDA x : P(m, x))
No(a, m) == SelectSeq(a, LAMBDA x : ~P(m, x))
IotaSeq(n, x) == [i \in 1..n |-> x + i - 1]
SetOf(q) == SetSeq(Ran(q))
Uniq(q) == SetSeq(Ran(q))
Clamp0(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
E(o) ==
  LET f == o[1]
      a == o[2]
      b == o[3]
      x == o[4]
      y == o[5]
      z == o[6]
      n == Len(a)
      firstP == First(n, LAMBDA i : P(x, a[i + 1]))
      firstV == First(n, LAMBDA i : a[i + 1] = x)
      kept == SelectSeq(a, LAMBDA q : q # x)
  IN
  CASE f = "acc" -> <<SumSeq(a) + 5>>
    [] f \in {"reduce", "acc_op"} -> <<FoldB(a, 3)>>
    [] f \in {"psum"} -> Buf(a, [i \in 1..n |-> SumSeq(SubSeq(a, 1, i))])
    [] f = "psum_op" -> Buf(a, [i \in 1..n |-> FoldB(SubSeq(a, 2, i), a[1])])
    [] f \in {"copy", "move", "moveit", "ccopy"} -> Buf(a, a)
    [] f = "fill_it" -> a
    [] f \in {"rev", "rev_c"} -> Rev(a)
    [] f = "transform" -> Buf(a, Map(a, U))
    [] f \in {"find_if", "ffo"} -> <<firstP>>
    [] f = "find_if_not" -> <<First(n, LAMBDA i : ~P(x, a[i + 1]))>>
    [] f = "flo" -> LET k == First(n, LAMBDA i : ~P(x, a[i + 1])) IN <<IF k = 0 THEN n ELSE k - 1>>
    [] f = "ffr" -> <<firstP, First(n, LAMBDA i : i >= firstP /\ ~P(x, a[i + 1]))>>
    [] f = "find_transform" -> LET k == First(n, LAMBDA i : P(x, (a[i + 1] + 1) % y)) IN
         IF k = n THEN <<n, 0, -1, n>> ELSE <<k, 1, (a[k + 1] + 1) % y, k + 1>>
    [] f = "all_of" -> <<B(\A i \in 1..n : P(x, a[i]))>>
    [] f \in {"any_of", "contains_if"} -> <<B(\E i \in 1..n : P(x, a[i]))>>
    [] f = "none_of" -> <<B(\A i \in 1..n : ~P(x, a[i]))>>
    [] f = "count_if" -> <<Len(Yes(a, x))>>
    [] f = "fi_if" -> <<IF firstP = n THEN -1 ELSE firstP>>
    [] f = "fio_if" -> <<firstP>>
    [] f = "for_each_if" -> Yes(a, x)
    [] f = "copy_if" -> Buf(a, Yes(a, x))
    [] f = "remove_if" -> <<Len(No(a, x))>> \o No(a, x)
    [] f = "consume_if" -> <<Len(No(a, x))>> \o No(a, x) \o No(SubSeq(a, firstP + 2, n), x)
    [] f \in {"transform_if", "transform_it"} -> Buf(a, Map(Yes(a, x), U))
    [] f \in {"find", "fio"} -> <<firstV>>
    [] f = "find_index" -> <<IF firstV = n THEN -1 ELSE firstV>>
    [] f = "contains" -> <<B(firstV < n)>>
    [] f = "remove" -> <<Len(kept)>> \o kept
    [] f = "split" -> FlatLens(SplitOn(a, x, <<>>))
    [] f = "fill" -> Rep(n, x)
    [] f \in {"iota", "iota_s"} -> IotaSeq(n, x)
    [] f \in {"issu"} -> <<First(n, LAMBDA i : i > 0 /\ Cmp(x, a[i + 1], a[i]))>>
    [] f \in {"iss", "iss_s"} -> <<B(First(n, LAMBDA i : i > 0 /\ Cmp(x, a[i + 1], a[i])) = n)>>
    [] f = "find_unsorted" -> <<First(n, LAMBDA i : i < n - 1 /\ Cmp(x, a[i + 2], a[i + 1]))>>
    [] f = "maxe" -> <<FirstMax(a, x)>>
    [] f = "minmaxe" -> IF n = 0 THEN <<0, 0>> ELSE <<FirstMin(a, x), LastMax(a, x)>>
    [] f = "adj" -> <<First(n, LAMBDA i : i < n - 1 /\ Eq(x, a[i + 1], a[i + 2]))>>
    [] f = "all_equal" -> <<B(\A i \in 1..n : Eq(x, a[1], a[i]))>>
    [] f = "all_equal0" -> <<B(\A i \in 1..n : a[1] = a[i])>>
    [] f = "lb" -> <<First(n, LAMBDA i : ~Cmp(y, a[i + 1], x))>>
    [] f = "ub" -> <<First(n, LAMBDA i : Cmp(y, x, a[i + 1]))>>
    [] f = "bs" -> SetSeq({i \in 0..(n - 1) : Equiv(y, a[i + 1], x)})       \* any of these positions
    [] f = "lex" -> <<B(LexC(a, b, x))>>
    [] f = "cmp_range" -> <<IF a = b THEN 0 ELSE IF x = 0 THEN (IF LexLt(a, b) THEN -1 ELSE 1)
                           ELSE LET k == First(Min(n, Len(b)), LAMBDA i : a[i + 1] # b[i + 1]) IN
                                IF k < Min(n, Len(b)) THEN (IF Cmp(x, a[k + 1], b[k + 1]) THEN -1 ELSE 1) ELSE IF n < Len(b) THEN -1 ELSE 1>>
    [] f = "set_int" -> Buf(a, SI(a, b, x))
    [] f \in {"eq4", "lexeq"} -> <<B(n = Len(b) /\ \A i \in 1..n : Eq(x, a[i], b[i]))>>
    [] f = "ne4" -> <<B(n = Len(b) /\ \A i \in 1..n : ~Eq(x, a[i], b[i]))>>
    [] f = "eq3" -> <<B(\A i \in 1..n : a[i] = b[i])>>
    [] f = "ne3" -> <<B(\A i \in 1..n : a[i] # b[i])>>
    [] f = "search" -> <<IF b = <<>> THEN 0 ELSE First(n, LAMBDA i : i + Len(b) <= n /\ \A j \in 1..Len(b) : Eq(x, a[i + j], b[j]))>>
    [] f = "ffo2" -> <<First(n, LAMBDA i : a[i + 1] \in Ran(b))>>
    [] f = "map2" -> Buf(a, Zip(a, b, Bop))
    [] f = "cpm" -> Buf(a, [i \in 1..n |-> Bop(Bop(a[i], b[i]), a[i])])
    [] f = "cp" -> Flat([i \in 1..n |-> <<a[i], b[i]>>])
    [] f = "map_reduce" -> <<FoldB([i \in 1..n |-> a[i] * 3 + b[i]], 1)>>
    [] f = "find_some" -> LET k == First(n, LAMBDA i : P(x, a[i + 1]) \/ P(y, a[i + 1])) IN
         IF k = n THEN <<n, 0, 0>> ELSE <<k, B(P(x, a[k + 1])), B(P(y, a[k + 1]))>>
    [] f = "find_one" -> LET k == First(n, LAMBDA i : P(x, a[i + 1]) \/ P(y, a[i + 1])) IN
         IF k = n THEN <<n, -1>> ELSE <<k, IF P(x, a[k + 1]) THEN 0 ELSE 1>>
    [] f = "sat1" -> <<B(\E i \in 1..n : P(x, a[i]) \/ P(y, a[i]))>>
    [] f = "satall" -> <<B(\A i \in 1..n : P(x, a[i]) /\ P(y, a[i]))>>
    [] f \in {"copy_n", "move_n", "ccopy_n"} -> <<x>> \o Buf(a, Take(a, x))
    [] f = "transform_n" -> <<x>> \o Buf(a, Map(Take(a, x), U))
    [] f = "transform_ni" -> <<x>> \o Buf(a, [i \in 1..x |-> 10 * a[i] + i - 1])
    [] f = "fill_n" -> <<x>> \o [i \in 1..n |-> IF i <= x THEN 77 ELSE a[i]]
    [] f = "sadv" -> <<Clamp0(x + y, 0, n)>>
    [] f = "snext" -> <<Clamp0(x + y, 0, n)>>
    [] f = "sprev" -> <<Clamp0(x - y, 0, n)>>
    [] f = "snext1" -> <<Clamp0(x + 1, 0, n)>>
    [] f = "sprev1" -> <<Clamp0(x - 1, 0, n)>>
    [] f = "begin_at" -> <<Clamp0(x, 0, n), Clamp0(x, 0, n)>>
    [] f = "advance_many" -> <<x + y, x + y, x + y>>
    [] f = "gather" -> LET p == Take(a, x)
                           q == Drop(a, x) IN <<Len(No(p, y)), x + Len(Yes(q, y))>> \o No(p, y) \o Yes(p, y) \o Yes(q, y) \o No(q, y)
    [] f = "prange" -> FlatLens(Pieces(a, x, Max(n \div x, y)))
    [] f = "are_equal" -> <<B(Cardinality(Ran(Take(a \o b, x))) = 1)>>
    [] f = "max_item" -> <<MaxS(Ran(Take(a, x)))>>
    [] f = "min_item" -> <<MinS(Ran(Take(a, x)))>>
    [] f = "minmaxi" -> <<Min(x, y), Max(x, y), IF Cmp(2, y, x) THEN y ELSE x, IF Cmp(2, y, x) THEN x ELSE y>>
    [] f = "clamp" -> <<IF x > y THEN y ELSE x>>
    [] f = "inr" -> IF x > y THEN <<-1>> ELSE <<B(x <= z /\ z <= y)>>
    [] f = "rel" -> <<B(x = y), B(x < y), B(x > y), B(x <= y), B(x >= y)>>
    [] f = "sat1v" -> <<B(P(x, z) \/ P(y, z))>>
    [] f = "satallv" -> <<B(P(x, z) /\ P(y, z))>>
    [] f = "tfun" -> IF x < 3 THEN <<10 + x>> ELSE <<>>
    [] f = "do_n" -> <<IF y = 0 THEN x ELSE 4>>
    [] f = "do_n_arg" -> IF y = 0 THEN IotaSeq(x, 0) ELSE <<0, 1, 2, 3, 0, 2, 4>>
    [] f = "ext_all" -> <<0>> \o Uniq(a \o b)
    [] f = "ext_match" -> <<Len(Uniq(No(a, x)))>> \o Uniq(No(a, x)) \o Uniq(Yes(a, x) \o b)
    [] f = "ext_mm" -> <<Len(No(a, x))>> \o Sorted(No(a, x)) \o Sorted(Yes(a, x) \o b)
    [] f = "ext_to" -> <<Len(Uniq(kept))>> \o Uniq(kept) \o Uniq(SelectSeq(a, LAMBDA q : q = x) \o b)
    [] f = "try_get" -> IF x \in Ran(a) THEN <<1, x, 10 * x, 1, x, 10 * x>> ELSE <<0, 0>>
    \* ---- container algorithms
    [] f = "c_size" -> <<n, 3>>
    [] f = "c_sort" -> SortBy(0, a)
    [] f \in {"c_ssort"} -> SortBy(0, a)
    [] f = "c_ssortc" -> SortBy(x, a)
    [] f = "c_sortc" -> SortBy(x, a)
    [] f \in {"c_find"} -> <<firstV, firstV>>
    [] f = "c_find_if" -> <<firstP>>
    [] f = "c_rm" -> <<Len(kept)>> \o kept
    [] f = "c_rmif" -> <<Len(No(a, x))>> \o No(a, x)
    [] f = "c_part" -> <<Len(Yes(a, x))>> \o Sorted(Yes(a, x)) \o Sorted(No(a, x))
    [] f = "c_spart" -> <<Len(Yes(a, x))>> \o Yes(a, x) \o No(a, x)
    [] f = "c_acc" -> <<SumSeq(a) + 5>>
    [] f = "c_acc_op" -> <<FoldB(a, 3)>>
    [] f = "c_tr" -> <<n>> \o Map(a, U)
    [] f = "c_tro" -> Buf(a, Map(a, U)) \o [i \in 1..(n + 2) |-> IF i <= n THEN U(a[i]) ELSE -5]
    [] f = "c_max" -> <<FirstMax(a, 0), FirstMax(a, 0)>>
    [] f = "c_maxc" -> <<FirstMax(a, x), FirstMax(a, x)>>
    [] f = "c_contv" -> <<B(firstV < n)>>
    [] f = "c_contp" -> <<B(firstP < n)>>
    [] f = "c_copy" -> [i \in 1..(n + 2) |-> IF i <= n THEN a[i] ELSE -5]
    [] f = "c_copy_n" -> [i \in 1..(n + 2) |-> IF i <= Min(n, x) THEN a[i] ELSE -5]
    [] f = "c_copy_if" -> Buf(a, Yes(a, x))
    [] f = "c_pos" -> Flat([i \in 1..n |-> <<a[i], i - 1>>])
    [] f = "c_posr" -> Flat([i \in 1..Max(0, y - x) |-> <<a[x + i], x + i - 1>>])
    [] f = "c_subset" -> Flat([i \in 1..Max(0, y - x) |-> <<n, x + i - 1>>])
    [] f = "c_append" -> b \o a \o a

\* results whose order is not prescribed are compared modulo the equivalence of the comparison
SortedLike(c, a, r) == Len(r) = Len(a) /\ IsPerm(a, r) /\ \A i \in 1..(Len(r) - 1) : ~Cmp(c, r[i + 1], r[i])
Step(s, o) == [s |-> s, r |-> <<>>]
Expect(s, o) == E(o)
Post(s, o, r) ==
  IF o[1] = "bs" THEN (IF Len(r) = 1 /\ (IF E(o) = <<>> THEN r[1] = Len(o[2]) ELSE r[1] \in Ran(E(o))) THEN {s} ELSE {})
  ELSE IF o[1] = "c_sortc" THEN (IF SortedLike(o[4], o[2], r) THEN {s} ELSE {})
  ELSE IF r = E(o) THEN {s} ELSE {}
=============================================================================
