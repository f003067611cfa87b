-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* Two fixed-size bit sets a (width w) and b (width v), as the sets of     *)
(* positions that are one. Every operation reports its own result, then    *)
(* all positions of a, then all positions of b.                            *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Widths, Limit, Configs, Pats

Word == 64
U(w) == 0..(w - 1)
Pattern(k, w) ==
  CASE k = 0 -> {}
    [] k = 1 -> U(w)
    [] k = 2 -> {0, w - 1}
    [] k = 3 -> {i \in U(w) : i % 2 = 1}
    [] k = 4 -> U(w) \cap {0, 1, 30, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 149}
    [] OTHER -> {i \in U(w) : (i * i) % 7 < 3}
AllConfigs == {[w |-> w, v |-> v, p |-> p, q |-> q] : w \in Widths, v \in Widths, p \in Pats, q \in Pats}

CInit(c) == [w |-> c.w, v |-> c.v, a |-> Pattern(c.p, c.w), b |-> Pattern(c.q, c.v), n |-> 0]
Inv(s) == s.a \subseteq U(s.w) /\ s.b \subseteq U(s.v)

Pos(w) == U(w) \cap {0, 1, 31, 32, 33, 62, 63, 64, 65, 127, 128, w - 1}
Shifts(w) == {0, 1, 2, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 150, 200, w - 1, w, w + 1}
Asc(S) == SetSeq(S)
NWords(w) == (w + Word - 1) \div Word

Kinds(s) == IF s.n >= Limit THEN {}
            ELSE {"set", "clear", "get", "none", "ints", "str", "shl", "shr", "not", "or", "and", "ior", "iand", "xor", "eq", "count", "bin", "hex", "from", "copy"} \cup (IF s.w # s.v THEN {"widen"} ELSE {})
\* which of the two an operation is applied to: 0 is a, 1 is b
Ops(s, k) ==
  CASE k \in {"set", "clear", "get"} -> {<<k, 0, i>> : i \in Pos(s.w)} \cup {<<k, 1, i>> : i \in Pos(s.v)}
    [] k \in {"shl", "shr"} -> {<<k, 0, i>> : i \in Shifts(s.w)} \cup {<<k, 1, i>> : i \in Shifts(s.v)}
    [] k = "ints" -> {<<k, 0, Asc(Pattern(p, NWords(s.w) * Word))>> : p \in Pats \ {0}} \cup {<<k, 0, <<0>>>>, <<k, 0, <<Word * NWords(s.w) - 1>>>>}
    [] k = "str" -> {<<k, 0, [i \in 1..n |-> IF (i * j) % 3 = 1 THEN 1 ELSE 0]>> : n \in {0, 1, s.w - 1, s.w, s.w + 1} \cup {m \in {63, 64, 65} : m < s.w}, j \in {1, 2}}
                    \cup {<<k, 0, <<1, 2>>>>}
    [] k = "from" -> {<<k, 0, Asc(S)>> : S \in {{}, Pos(s.w)} \cup {{i} : i \in Pos(s.w)}}
    [] k \in {"none", "not", "count", "bin", "hex"} -> {<<k, 0>>, <<k, 1>>}
    [] k \in {"ior", "iand"} -> {<<k, 0>>, <<k, 1>>}
    [] OTHER -> {<<k>>}

Dump(s) == <<-1>> \o Asc(s.a) \o <<-1>> \o Asc(s.b)
Get(s, i) == IF i = 0 THEN s.a ELSE s.b
Wid(s, i) == IF i = 0 THEN s.w ELSE s.v
Put(s, i, S) == IF i = 0 THEN [s EXCEPT !.a = S] ELSE [s EXCEPT !.b = S]
HexDigit(S, i) == B(4 * i \in S) + 2 * B(4 * i + 1 \in S) + 4 * B(4 * i + 2 \in S) + 8 * B(4 * i + 3 \in S)
SymDiff(A, C) == (A \ C) \cup (C \ A)

Raw(s, o) ==
  LET k == o[1] t == IF Len(o) > 1 THEN o[2] ELSE 0 S == Get(s, t) w == Wid(s, t) other == Get(s, 1 - t) IN
  CASE k = "set" -> [s |-> Put(s, t, S \cup {o[3]}), r |-> <<>>]
    [] k = "clear" -> [s |-> Put(s, t, S \ {o[3]}), r |-> <<>>]
    [] k = "get" -> [s |-> s, r |-> <<B(o[3] \in S)>>]
    [] k = "none" -> [s |-> Put(s, t, {}), r |-> <<>>]
    [] k = "ints" -> [s |-> Put(s, t, Ran(o[3]) \cap U(w)), r |-> <<>>]
    [] k = "str" -> IF Len(o[3]) > w THEN [s |-> s, r |-> <<2>>]
                    ELSE IF 2 \in Ran(o[3]) THEN [s |-> s, r |-> <<1>>]
                    ELSE [s |-> Put(s, t, {i \in 0..(Len(o[3]) - 1) : o[3][Len(o[3]) - i] = 1}), r |-> <<0>>]
    [] k = "shl" -> [s |-> Put(s, t, {i + o[3] : i \in S} \cap U(w)), r |-> <<>>]
    [] k = "shr" -> [s |-> Put(s, t, {i - o[3] : i \in S} \cap U(w)), r |-> <<>>]
    [] k = "not" -> [s |-> Put(s, t, U(w) \ S), r |-> <<>>]
    [] k = "ior" -> [s |-> Put(s, t, (S \cup other) \cap U(w)), r |-> <<>>]
    [] k = "iand" -> [s |-> Put(s, t, S \cap other), r |-> <<>>]
    \* results of both orders, each with its width
    [] k = "or" -> [s |-> s, r |-> <<Max(s.w, s.v)>> \o Asc(s.a \cup s.b) \o <<-1, Max(s.w, s.v)>> \o Asc(s.a \cup s.b)]
    [] k = "and" -> [s |-> s, r |-> <<s.w>> \o Asc(s.a \cap s.b) \o <<-1, s.v>> \o Asc(s.a \cap s.b)]
    [] k = "xor" -> [s |-> s, r |-> <<Max(s.w, s.v)>> \o Asc(SymDiff(s.a, s.b)) \o <<-1, Max(s.w, s.v)>> \o Asc(SymDiff(s.a, s.b))]
    [] k = "eq" -> [s |-> s, r |-> <<B(s.a = s.b), B(s.a # s.b), B(s.a = s.b), B(s.a # s.b)>>]
    [] k = "count" -> [s |-> s, r |-> <<Cardinality(S), w - Cardinality(S)>>]
    [] k = "bin" -> [s |-> s, r |-> [i \in 1..w |-> B(w - i \in S)]]
    [] k = "hex" -> [s |-> s, r |-> [i \in 1..(16 * NWords(w)) |-> HexDigit(S, 16 * NWords(w) - i)]]
    [] k = "from" -> [s |-> s, r |-> o[3]]
    [] k = "copy" -> [s |-> s, r |-> Asc(s.a)]
    [] OTHER -> [s |-> IF s.w < s.v THEN [s EXCEPT !.b = s.a] ELSE [s EXCEPT !.a = s.b], r |-> <<>>]
Step(s, o) == LET x == Raw(s, o) IN [s |-> [x.s EXCEPT !.n = s.n + 1], r |-> x.r \o Dump(x.s)]
Expect(s, o) == Step(s, o).r
Post(s, o, r) == IF r = Expect(s, o) THEN {Step(s, o).s} ELSE {}
=============================================================================
