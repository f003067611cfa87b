---------------------------- MODULE BoundedVec ----------------------------
(***************************************************************************)
(* bounded_vector_t<T, n> (t = "vec") as a finite sequence of at most n    *)
(* elements, and bounded_array_t<T, n> (t = "arr") as n cells.             *)
(* a, b are two vectors; every operation acts on a, swap and copy on both. *)
(* ga, gb count the cells in front of the first element. They may not be   *)
(* observable; they are kept so that every sequence is exercised at every  *)
(* position in the storage.                                                *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Vals, Configs

CInit(c) == [t |-> c.t, n |-> c.n, two |-> c.two, a |-> IF c.t = "arr" THEN [i \in 1..c.n |-> 0] ELSE <<>>, ga |-> 0, b |-> <<>>, gb |-> 0]
Inv(s) == Len(s.a) <= s.n /\ Len(s.b) <= s.n /\ s.ga + Len(s.a) <= s.n /\ s.gb + Len(s.b) <= s.n

L(s) == Len(s.a)
Room(s) == s.n - L(s)
VecKinds == {"push", "pushm", "emplace", "emplace3", "pushself", "pushselfm", "emplself", "pushslot", "pushn", "pushc", "assign", "assignself",
             "popb", "popf", "popfn", "popfbad", "resize", "resizebad", "erase", "eraser", "zero", "clear", "set", "get", "list", "meta", "swap", "copy", "ctorn", "ctorr"}
ArrKinds == {"afill", "afillself", "aset", "alist", "aeq", "acopy"}
ZeroKinds == {"zmeta"}
Kinds(s) == IF s.t = "arr" THEN ArrKinds ELSE IF s.n = 0 THEN ZeroKinds ELSE IF s.two = 1 THEN VecKinds ELSE VecKinds \ {"swap", "copy"}
LongSeqs(n) == IF n <= 3 THEN SeqsN(Vals, n) ELSE {[i \in 1..n |-> 1 + ((v * i) % 9)] : v \in Vals}
Ways == {"idx", "at", "data", "it", "rit"}
Ops(s, k) ==
  CASE k \in {"push", "pushm", "emplace", "emplace3", "pushslot"} -> IF Room(s) > 0 THEN {<<k, v>> : v \in Vals} ELSE {}
    [] k \in {"pushself", "pushselfm", "emplself"} -> IF Room(s) > 0 THEN {<<k, i>> : i \in 0..(L(s) - 1)} ELSE {}
    [] k \in {"pushn", "pushc"} -> {<<k, vs>> : vs \in SeqsUpTo(Vals, Min(Room(s), 3))}
    [] k = "assign" -> {<<k, c, v>> : c \in 0..s.n, v \in Vals}
    [] k = "assignself" -> {<<k, c, i>> : c \in 0..s.n, i \in 0..(L(s) - 1)}
    [] k \in {"popb", "popf"} -> IF L(s) > 0 THEN {<<k>>} ELSE {}
    [] k = "popfn" -> {<<k, c>> : c \in 0..L(s)}
    [] k = "popfbad" -> {<<k, L(s) + 1>>, <<k, L(s) + 5>>}
    [] k = "resize" -> {<<k, c>> : c \in 0..s.n}
    [] k = "resizebad" -> {<<k, s.n + 1>>}
    [] k = "erase" -> {<<k, i>> : i \in 0..(L(s) - 1)}
    [] k = "eraser" -> {o \in {<<k, i, j>> : i \in 0..L(s), j \in 0..L(s)} : o[2] <= o[3]}
    [] k = "set" -> {<<k, i, v, w>> : i \in 0..(L(s) - 1), v \in Vals, w \in Ways} \cup (IF L(s) > 0 THEN {<<k, 0, v, "front">> : v \in Vals} \cup {<<k, L(s) - 1, v, "back">> : v \in Vals} ELSE {})
    [] k = "get" -> {<<k, i>> : i \in 0..(L(s) - 1)}
    [] k \in {"ctorn", "ctorr"} -> {<<k, vs>> : vs \in LongSeqs(s.n) \cup {<<>>} \cup (IF k = "ctorn" THEN LongSeqs(s.n + 1) ELSE {})}
    [] k = "afill" -> {<<k, v>> : v \in Vals}
    [] k = "afillself" -> {<<k, i>> : i \in 0..(s.n - 1)}
    [] k = "aset" -> {<<k, i, v, w>> : i \in 0..(s.n - 1), v \in Vals, w \in {"idx", "data", "it"}} \cup {<<k, 0, v, "front">> : v \in Vals} \cup {<<k, s.n - 1, v, "back">> : v \in Vals}
    [] k = "aeq" -> {<<k, vs>> : vs \in LongSeqs(s.n) \cup {s.a}}
    [] OTHER -> {<<k>>}
\* position of the contents after c more elements were appended
Lead(s, c) == IF s.ga > 0 /\ s.ga + L(s) + c >= s.n THEN 0 ELSE s.ga
app(s, vs) == [s EXCEPT !.a = @ \o vs, !.ga = Lead(s, Len(vs))]
Step(s, o) ==
  LET k == o[1] IN
  CASE k \in {"push", "pushm", "emplace", "emplace3", "pushslot"} -> [s |-> app(s, <<o[2]>>), r |-> IF k = "pushslot" THEN <<L(s)>> ELSE <<>>]
    [] k \in {"pushself", "pushselfm", "emplself"} -> [s |-> app(s, <<s.a[o[2] + 1]>>), r |-> <<>>]
    [] k \in {"pushn", "pushc"} -> [s |-> app(s, o[2]), r |-> <<>>]
    [] k = "assign" -> [s |-> [s EXCEPT !.a = Rep(o[2], o[3]), !.ga = 0], r |-> <<>>]
    [] k = "assignself" -> [s |-> [s EXCEPT !.a = Rep(o[2], s.a[o[3] + 1]), !.ga = 0], r |-> <<>>]
    [] k = "popb" -> [s |-> [s EXCEPT !.a = Take(@, L(s) - 1)], r |-> <<s.a[L(s)]>>]
    [] k = "popf" -> [s |-> [s EXCEPT !.a = Drop(@, 1), !.ga = @ + 1], r |-> <<s.a[1]>>]
    [] k = "popfn" -> [s |-> [s EXCEPT !.a = Drop(@, o[2]), !.ga = @ + o[2]], r |-> <<0>>]
    [] k = "popfbad" -> [s |-> s, r |-> <<-1>>]
    [] k = "resize" -> [s |-> IF o[2] > L(s) THEN app(s, Rep(o[2] - L(s), 0)) ELSE [s EXCEPT !.a = Take(@, o[2])], r |-> <<0>>]
    [] k = "resizebad" -> [s |-> s, r |-> <<-1>>]
    [] k = "erase" -> [s |-> [s EXCEPT !.a = Cut(@, o[2], o[2] + 1)], r |-> <<o[2]>>]
    [] k = "eraser" -> [s |-> [s EXCEPT !.a = Cut(@, o[2], o[3])], r |-> <<o[2]>>]
    [] k = "zero" -> [s |-> [s EXCEPT !.a = Rep(L(s), 0)], r |-> <<>>]
    [] k = "clear" -> [s |-> [s EXCEPT !.a = <<>>, !.ga = 0], r |-> <<>>]
    [] k \in {"set", "aset"} -> [s |-> [s EXCEPT !.a[o[2] + 1] = o[3]], r |-> <<>>]
    [] k = "get" -> [s |-> s, r |-> Rep(4, s.a[o[2] + 1])]
    [] k = "list" -> [s |-> s, r |-> s.a \o Rev(s.a) \o (IF L(s) > 0 THEN <<s.a[1], s.a[L(s)]>> ELSE <<>>)]
    [] k = "meta" -> [s |-> s, r |-> <<L(s), B(L(s) = 0), B(L(s) = s.n), s.n, Room(s)>> \o [i \in 1..(s.n + 2) |-> B(i - 1 <= Room(s))]]
    [] k = "zmeta" -> [s |-> s, r |-> <<0, 1, 1, 0, 0, 0, 0, 1, -1>>]
    [] k = "swap" -> [s |-> [s EXCEPT !.a = s.b, !.b = s.a, !.ga = s.gb, !.gb = s.ga], r |-> <<>>]
    [] k = "copy" -> [s |-> [s EXCEPT !.b = s.a, !.gb = s.ga], r |-> <<>>]
    [] k \in {"ctorn", "ctorr"} -> [s |-> [s EXCEPT !.a = Take(o[2], Min(Len(o[2]), s.n)), !.ga = 0], r |-> <<>>]
    [] k = "afill" -> [s |-> [s EXCEPT !.a = Rep(s.n, o[2])], r |-> <<>>]
    [] k = "afillself" -> [s |-> [s EXCEPT !.a = Rep(s.n, s.a[o[2] + 1])], r |-> <<>>]
    [] k = "alist" -> [s |-> s, r |-> <<s.n, 0>> \o s.a \o s.a \o <<s.a[1], s.a[s.n]>>]
    [] k = "aeq" -> [s |-> s, r |-> <<B(o[2] = s.a), B(o[2] # s.a), B(o[2] = s.a)>>]
    [] k = "acopy" -> [s |-> s, r |-> <<>>]
Expect(s, o) == Step(s, o).r
Post(s, o, r) == IF r = Expect(s, o) THEN {Step(s, o).s} ELSE {}
=============================================================================
