------------------------------ MODULE IterView ------------------------------
(***************************************************************************)
(* daw::iter_view: a window [lo, hi) of a sequence, over any kind of        *)
(* forward iterators. k is the kind of the underlying sequence.             *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS MaxN, Configs

AllConfigs == [k : {"vec", "list", "fwd", "ptr"}, src : SeqsUpTo({1, 2}, MaxN)]
CInit(c) == [k |-> c.k, src |-> c.src, lo |-> 0, hi |-> Len(c.src)]
N(s) == s.hi - s.lo
Inv(s) == 0 <= s.lo /\ s.lo <= s.hi /\ s.hi <= Len(s.src)
Win(s) == SubSeq(s.src, s.lo + 1, s.hi)

Kinds(s) == {"make", "sub", "cut", "cutraw", "find", "not", "until", "while", "popuntil", "popwhile", "cmp"}
            \cup (IF N(s) > 0 THEN {"cut1", "pop", "at"} ELSE {})
            \cup (IF s.lo > 0 /\ s.k # "fwd" THEN {"add"} ELSE {})
Ops(s, k) ==
  CASE k = "make" -> {<<k, i>> : i \in 0..2}
    [] k = "sub" -> {<<k, i, j>> : i \in 0..(N(s) + 1), j \in 0..(N(s) + 1)} \cup {<<k, i, -1>> : i \in 0..(N(s) + 1)}
    [] k = "cut" -> {<<k, i>> : i \in 0..(N(s) + 2)}
    [] k = "cutraw" -> {<<k, i>> : i \in 0..(N(s) - 1)}
    [] k \in {"find", "not"} -> {<<k, v>> : v \in 1..3}
    [] k \in {"until", "while", "popuntil", "popwhile"} -> {<<k, v, d>> : v \in 1..3, d \in 0..1}
    [] k = "at" -> {<<k, i>> : i \in 0..(N(s) - 1)}
    [] k = "add" -> {<<k, i>> : i \in 1..s.lo}
    [] k = "cmp" -> {<<k, i, j>> : i \in 0..Len(s.src), j \in {m \in 0..Len(s.src) : TRUE}}
    [] OTHER -> {<<k>>}

\* the first place, from the start of the window, where the element is v (want) or is not
RECURSIVE Scan(_, _, _, _)
Scan(w, v, want, i) == IF i >= Len(w) THEN i ELSE IF (w[i + 1] = v) = want THEN i ELSE Scan(w, v, want, i + 1)

Lo(s, x) == [s EXCEPT !.lo = x]
Raw(s, o) ==
  LET k == o[1] w == Win(s) n == N(s) a == IF Len(o) > 1 THEN o[2] ELSE 0 b == IF Len(o) > 2 THEN o[3] ELSE 0 IN
  CASE k = "make" -> [s |-> [s EXCEPT !.lo = 0, !.hi = Len(s.src)], r |-> <<>>]
    [] k = "sub" -> LET from == Min(a, n) len == IF b = -1 THEN n - from ELSE Min(b, n - from) IN
                    [s |-> [s EXCEPT !.lo = s.lo + from, !.hi = s.lo + from + len], r |-> <<>>]
    [] k = "cut" -> [s |-> Lo(s, s.lo + Min(a, n)), r |-> <<>>]
    [] k = "cutraw" -> [s |-> Lo(s, s.lo + a), r |-> <<>>]
    [] k = "cut1" -> [s |-> Lo(s, s.lo + 1), r |-> <<>>]
    [] k = "pop" -> [s |-> Lo(s, s.lo + 1), r |-> <<w[1]>>]
    [] k = "at" -> [s |-> s, r |-> <<w[a + 1]>>]
    [] k = "add" -> [s |-> Lo(s, s.lo - a), r |-> <<>>]
    [] k = "find" -> [s |-> s, r |-> <<Scan(w, a, TRUE, 0)>>]
    [] k = "not" -> [s |-> s, r |-> <<Scan(w, a, FALSE, 0)>>]
    \* b: the element that stopped the scan is discarded too
    [] k \in {"until", "while", "popuntil", "popwhile"} ->
         LET i == Scan(w, a, k \in {"until", "popuntil"}, 0) IN
         [s |-> Lo(s, s.lo + Min(i + b, n)), r |-> IF k \in {"until", "while"} THEN <<>> ELSE <<i>> \o Take(w, i)]
    [] OTHER -> LET x == SubSeq(s.src, a + 1, b) IN
                [s |-> s, r |-> <<B(w = x), B(w # x), B(LexLt(w, x)), B(LexLt(x, w)), B(~LexLt(x, w)), B(~LexLt(w, x))>>]
\* position of the window, size, empty, contents forwards, backwards
Dump(s) == <<s.lo, N(s), B(N(s) = 0)>> \o Win(s) \o (IF s.k = "fwd" THEN <<>> ELSE Rev(Win(s)))
Step(s, o) == LET y == Raw(s, o) IN [s |-> y.s, r |-> y.r \o Dump(y.s)]
Expect(s, o) == Step(s, o).r
Post(s, o, r) == IF r = Expect(s, o) THEN {Step(s, o).s} ELSE {}
=============================================================================
