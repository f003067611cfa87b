-------------------------------- MODULE Nav --------------------------------
(***************************************************************************)
(* Navigation with an iterator adaptor. Two iterators a and b designate     *)
(* positions 0..N of the sequence the adaptor is defined to present; N is   *)
(* the end. Every adaptor is described by that sequence (Val) and by the    *)
(* navigation it offers; every operation reports its result, then what a    *)
(* and b designate (-1 at the end) and whether they are equal.              *)
(*   k the adaptor, n the length of the underlying sequence 10, 11, ...     *)
(*   z chunk size, filter mask, step, or the checks that are on             *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS MaxN, Configs

Jump == {"arg", "chunk", "circ", "idx", "cidx", "iota", "iotau", "ptr", "rand", "rep", "rev", "wrap", "wrapp"}
Bidi == Jump \cup {"bcount", "revl", "zip", "chk"}
Ord  == Jump \ {"rep"}
Sub  == {"arg", "iota", "iotau", "ptr", "rep", "rev", "wrap", "wrapp"}
Arrow == {"idx", "cidx", "ptr", "rand", "rep", "rev", "revl", "wrap", "wrapp", "chunk", "circ", "fcount", "bcount", "find", "findp", "chk", "input", "iota", "iotau"}
Plain == {"arg", "circ", "fcount", "bcount", "idx", "cidx", "intr", "ptr", "rand", "rep", "rev", "revl", "zip", "wrap", "wrapp", "input"}

AllConfigs == [k : Plain, n : 0..MaxN, z : {0}]
        \cup [k : {"chunk"}, n : 0..MaxN, z : 1..3]
        \cup UNION {[k : {"find", "findp"}, n : {m}, z : 0..(Pow(2, m) - 1)] : m \in 0..MaxN}
        \cup UNION {[k : {"fone"}, n : {m}, z : 0..(Pow(4, m) - 1)] : m \in 0..Min(MaxN, 3)}
        \cup [k : {"iota"}, n : 0..MaxN, z : {1, 2, 3, -1, -2}] \cup [k : {"iotau"}, n : 0..MaxN, z : {1, 3}]
        \cup [k : {"chk"}, n : 0..Min(MaxN, 2), z : 0..7]

Digit(z, b, i) == (z \div Pow(b, i)) % b
\* indexes of the underlying elements that the adaptor presents
Hits(c) == CASE c.k \in {"find", "findp"} -> SetSeq({i \in 0..(c.n - 1) : Digit(c.z, 2, i) = 1})
             [] c.k = "fone" -> SetSeq({i \in 0..(c.n - 1) : Digit(c.z, 4, i) # 0})
             [] OTHER -> [i \in 1..c.n |-> i - 1]
Val(s, i) ==
  LET h == s.h[i + 1] IN
  CASE s.k = "chunk" -> 10 + (h * s.z)
    [] s.k \in {"rev", "revl"} -> 10 + (s.n - 1 - h)
    [] s.k = "zip" -> (100 * (10 + h)) + 20 + h
    [] s.k = "rep" -> 65
    [] s.k \in {"iota", "iotau"} -> 20 + (h * s.z)
    [] s.k = "fone" -> 10 + h + (IF Digit(s.z, 4, h) = 2 THEN 100 ELSE 0)
    [] OTHER -> 10 + h
NN(s) == Len(s.h)
At(s, p) == IF p < NN(s) /\ p >= 0 THEN Val(s, p) ELSE -1

\* d: steps taken by counting iterators; t: type of the iterator that is held
CInit(c) == [k |-> c.k, n |-> c.n, z |-> c.z, h |-> Hits(c), p |-> <<0, 0>>, d |-> <<0, 0>>, t |-> <<0, 0>>]
Inv(s) == \A w \in 1..2 : s.p[w] \in 0..NN(s)

Checks(s, bit) == s.k = "chk" /\ Digit(s.z, 2, bit) = 1
Move(s, w, x) == IF s.k = "circ" THEN (s.p[w] + x) % NN(s) ELSE s.p[w] + x
CanMove(s, w, x) == IF s.k = "circ" THEN NN(s) > 0 ELSE s.p[w] + x \in 0..NN(s)
Far(s) == IF s.k = "circ" THEN (-2 * NN(s) - 1)..(2 * NN(s) + 1) ELSE (0 - NN(s))..NN(s)

Kinds(s) == {"begin", "end", "pre++", "post++", "rel", "copy"}
            \cup (IF s.k \in Bidi THEN {"pre--", "post--"} ELSE {})
            \cup (IF s.k \in Jump THEN {"+=", "-=", "+", "-"} ELSE {})
            \cup (IF s.k \in Sub \cup {"chunk"} THEN {"[]"} ELSE {})
            \cup (IF s.k \in Arrow THEN {"->"} ELSE {})
            \cup (IF s.k \in {"fcount", "bcount"} THEN {"steps"} ELSE {})
            \cup (IF s.k \in {"zip", "idx", "cidx"} THEN {"adv"} ELSE {})
            \cup (IF s.k = "arg" THEN {"at", "ends"} ELSE {})
            \cup (IF s.k = "chk" THEN {"deref"} ELSE {})
            \cup (IF s.k \in {"input", "circ"} THEN {"move"} ELSE {})
W == 1..2
Ops(s, k) ==
  CASE k = "begin" -> IF s.k = "input" THEN {<<k, w, t>> : w \in W, t \in 0..1} ELSE {<<k, w, 0>> : w \in W}
    [] k = "end" -> IF s.k = "input" THEN {<<k, w, t>> : w \in W, t \in 0..1} ELSE {<<k, w, 0>> : w \in W}
    [] k \in {"pre++", "post++"} -> {<<k, w>> : w \in {v \in W : CanMove(s, v, 1) \/ Checks(s, 0)}}
    [] k \in {"pre--", "post--"} -> {<<k, w>> : w \in {v \in W : CanMove(s, v, -1) \/ Checks(s, 1)}}
    [] k \in {"+=", "+", "adv"} -> UNION {{<<k, w, x>> : x \in {y \in Far(s) : CanMove(s, w, y)}} : w \in W}
    [] k \in {"-=", "-"} -> UNION {{<<k, w, x>> : x \in {y \in Far(s) : CanMove(s, w, 0 - y)}} : w \in W}
    [] k = "[]" -> IF s.k = "chunk" THEN UNION {{<<k, w, x>> : x \in {y \in 0..(s.z - 1) : s.p[w] < NN(s)}} : w \in W}
                   ELSE UNION {{<<k, w, x>> : x \in {y \in Far(s) : s.p[w] + y \in 0..(NN(s) - 1) /\ (s.k # "rep" \/ y >= 0)}} : w \in W}
    [] k = "->" -> {<<k, w>> : w \in {v \in W : s.p[v] < NN(s) \/ Checks(s, 2)}}
    [] k = "deref" -> {<<k, w>> : w \in {v \in W : s.p[v] < NN(s) \/ Checks(s, 2)}}
    [] k = "at" -> {<<k, w, x>> : w \in W, x \in (-1 - NN(s))..(NN(s) + 1)}
    [] k \in {"copy", "steps", "ends"} -> {<<k, w>> : w \in W}
    [] k = "move" -> IF s.k = "input" THEN {<<k, w, t>> : w \in W, t \in 0..1} ELSE {<<k, w, 0>> : w \in W}
    [] k = "rel" -> IF s.t[1] = s.t[2] THEN {<<k>>} ELSE {}

Put(s, w, p, d, t) == [s EXCEPT !.p[w] = p, !.d[w] = d, !.t[w] = t]
Eq(s) == IF s.t[1] = s.t[2] THEN B(s.p[1] = s.p[2]) ELSE -2
Dump(s) == <<At(s, s.p[1]), At(s, s.p[2]), Eq(s)>>
Counts(s, x) == IF s.k \in {"fcount", "bcount"} THEN x ELSE 0
Go(s, w, x) == Put(s, w, Move(s, w, x), s.d[w] + Counts(s, x), s.t[w])
\* what an iterator moved by x designates
Rel(a, b) == <<B(a = b), B(a # b)>>
OrdRel(a, b) == <<B(a < b), B(a > b), B(a <= b), B(a >= b)>>
Refused(s) == [s |-> s, r |-> <<-9>>]

Raw(s, o) ==
  LET k == o[1] w == IF Len(o) > 1 THEN o[2] ELSE 1 p == s.p[w] x == IF Len(o) > 2 THEN o[3] ELSE 0 v == 3 - w IN
  CASE k = "begin" -> [s |-> Put(s, w, 0, 0, x), r |-> <<>>]
    [] k = "end" -> [s |-> Put(s, w, NN(s), 0, x), r |-> <<>>]
    \* moved out of a temporary at the beginning
    [] k = "move" -> [s |-> Put(s, w, 0, 0, x), r |-> <<>>]
    [] k = "copy" -> [s |-> Put(s, w, s.p[v], s.d[v], s.t[v]), r |-> <<>>]
    [] k = "pre++" -> IF ~CanMove(s, w, 1) THEN Refused(s) ELSE [s |-> Go(s, w, 1), r |-> <<At(s, Move(s, w, 1))>>]
    [] k = "post++" -> IF ~CanMove(s, w, 1) THEN Refused(s) ELSE [s |-> Go(s, w, 1), r |-> <<At(s, p)>>]
    [] k = "pre--" -> IF ~CanMove(s, w, -1) THEN Refused(s) ELSE [s |-> Go(s, w, -1), r |-> <<At(s, Move(s, w, -1))>>]
    [] k = "post--" -> IF ~CanMove(s, w, -1) THEN Refused(s) ELSE [s |-> Go(s, w, -1), r |-> <<At(s, p)>>]
    [] k \in {"+=", "adv"} -> [s |-> Go(s, w, x), r |-> <<At(s, Move(s, w, x))>>]
    [] k = "-=" -> [s |-> Go(s, w, 0 - x), r |-> <<At(s, Move(s, w, 0 - x))>>]
    [] k = "+" -> [s |-> s, r |-> <<At(s, Move(s, w, x))>>]
    [] k = "-" -> [s |-> s, r |-> <<At(s, Move(s, w, 0 - x))>>]
    [] k = "[]" -> [s |-> s, r |-> <<IF s.k = "chunk" THEN Val(s, p) + x ELSE At(s, p + x)>>]
    [] k \in {"->", "deref"} -> IF p = NN(s) THEN Refused(s) ELSE [s |-> s, r |-> <<At(s, p)>>]
    [] k = "steps" -> [s |-> s, r |-> <<s.d[w]>>]
    [] k = "at" -> [s |-> s, r |-> IF p + x \in 0..(NN(s) - 1) THEN <<At(s, p + x)>> ELSE <<-9>>]
    \* at_end, bool, then the iterator against the end() of the same arguments in both orders
    [] k = "ends" -> [s |-> s, r |-> <<B(p = NN(s)), B(p # NN(s)), p, NN(s)>> \o Rel(p, NN(s)) \o OrdRel(p, NN(s)) \o Rel(NN(s), p) \o OrdRel(NN(s), p)]
    [] OTHER -> [s |-> s, r |-> Rel(s.p[1], s.p[2]) \o (IF s.k \in Ord THEN OrdRel(s.p[1], s.p[2]) ELSE <<>>)
                                \o (IF s.k \in Jump THEN <<s.p[1] - s.p[2], s.p[2] - s.p[1]>> ELSE <<>>)]
Step(s, o) == LET y == Raw(s, o) IN [s |-> y.s, r |-> y.r \o Dump(y.s)]
Expect(s, o) == Step(s, o).r
Post(s, o, r) == IF o[1] = "__end" THEN (IF r = <<0, 0, 0>> THEN {s} ELSE {}) ELSE IF r = Expect(s, o) THEN {Step(s, o).s} ELSE {}
=============================================================================
