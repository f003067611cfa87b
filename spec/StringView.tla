----------------------------- MODULE StringView -----------------------------
(***************************************************************************)
(* daw::string_view (basic_string_view<CharT>).                            *)
(* A view is a window (a, n) on a fixed text t.  e selects how the text    *)
(* lies in memory: 0 = exactly sized block, 1 = surrounded by other        *)
(* characters, 2 = zero terminated (z: the view may say so).               *)
(* Queries are functions of the characters of the window; modifiers move   *)
(* the window and return pieces <<first, length, zt>> of the text (first   *)
(* is -1 for an empty piece).  npos is -1.                                 *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Texts, Needles, Chars, Embeds, Enabled, MaxPos, Configs

CInit(c) == [t |-> c.t, e |-> c.e, a |-> 0, n |-> Len(c.t)]
Inv(s) == s.a >= 0 /\ s.n >= 0 /\ s.a + s.n <= Len(s.t)
W(s) == SubSeq(s.t, s.a + 1, s.a + s.n)

\* ---- definitions on character sequences (0-based positions, -1 = none) ----
Least(S) == IF S = {} THEN -1 ELSE MinS(S)
Greatest(S) == IF S = {} THEN -1 ELSE MaxS(S)
OccAt(w, v, i) == i >= 0 /\ i + Len(v) <= Len(w) /\ SubSeq(w, i + 1, i + Len(v)) = v
Occs(w, v) == {i \in 0..Len(w) : OccAt(w, v, i)}
Up(p, n) == IF p = -1 THEN n + 1 ELSE p          \* npos as a position
Find(w, v, p) == Least({i \in Occs(w, v) : i >= Up(p, Len(w) + 5)})
RFind(w, v, p) == Greatest({i \in Occs(w, v) : i <= Up(p, Len(w))})
InSet(w, S) == {i \in 0..(Len(w) - 1) : w[i + 1] \in S}
NotIn(w, S) == {i \in 0..(Len(w) - 1) : w[i + 1] \notin S}
From(S, p) == Least({i \in S : p # -1 /\ i >= p})
UpTo(S, p) == Greatest({i \in S : p = -1 \/ i <= p})
\* find_last_of with a position inside the text: the project's own tests pin that pos does not bound the result from
\* above; it is either ignored (8-bit text) or selects the last pos + 1 characters (wider text)
LastOf(S, p, n) == IF p = -1 \/ p >= n THEN {<<Greatest(S)>>}
                   ELSE {<<Greatest(S)>>, <<Greatest({i \in S : i >= n - 1 - p})>>}
Sgn(w, v) == IF w = v THEN 0 ELSE IF LexLt(w, v) THEN -1 ELSE 1
Spaces == {32, 9, 10, 11, 12, 13}
\* predicates used by the driver
PredSet(k) == CASE k = 0 -> {97} [] k = 1 -> Spaces [] k = 2 -> {} [] k = 3 -> (-200..300) [] k = 4 -> {98, 32}
PreIdx(w, S) == LET x == Least(NotIn(w, S)) IN IF x = -1 THEN Len(w) ELSE x
SufIdx(w, S) == Greatest(NotIn(w, S)) + 1
\* pieces obtained by removing from the front up to each delimiter until nothing is left
RECURSIVE Split(_, _, _)
Split(w, d, base) == IF w = <<>> THEN <<>>
                     ELSE LET p == Find(w, d, 0) IN
                          IF p = -1 THEN <<base, Len(w)>>
                          ELSE (IF p = 0 THEN <<-1, 0>> ELSE <<base, p>>) \o Split(Drop(w, p + Len(d)), d, base + p + Len(d))
RECURSIVE RSplit(_, _, _)
RSplit(w, d, base) == IF w = <<>> THEN <<>>
                     ELSE LET p == RFind(w, d, -1)  q == p + Len(d) IN
                          IF p = -1 THEN <<base, Len(w)>>
                          ELSE (IF q = Len(w) THEN <<-1, 0>> ELSE <<base + q, Len(w) - q>>) \o RSplit(Take(w, p), d, base)

\* ---- operations ----
QKinds == {"find", "find_c", "rfind", "rfind_c", "contains", "contains_c", "first_of", "first_of_c", "last_of", "last_of_c",
           "first_not_of", "first_not_of_c", "last_not_of", "last_not_of_c", "first_of_if", "first_not_of_if", "last_of_if",
           "last_not_of_if", "match", "match2", "search", "search_last", "starts", "starts_c", "ends", "ends_c", "cmp",
           "cmp_sub", "cmp_sub2", "rel", "at", "idx", "ends_acc", "chars", "copy", "str", "hash", "os"}
MKinds == {"pf", "pb", "pfn", "pbn", "pfu", "pfu_c", "pfu_p", "pfw", "pfw_c", "pfw_p", "pbu", "pbu_c", "pbu_p",
           "tpfu", "tpfu_c", "tpfu_p", "tpbu", "tpbu_c", "tpbu_p", "rp", "rs", "rpu", "rpu_c", "rpu_p", "rpw_c", "rpw_p",
           "rsw_c", "rsw_p", "trim", "tprefix", "tsuffix", "resize", "clear", "reset", "substr", "substr_u", "expand_p", "expand_s",
           "win", "split", "rsplit", "make"}
Kinds(s) == Enabled
Poss == (0..MaxPos) \cup {-1}
SzArgs == {2, 3, 4}
Ops(s, k) ==
  CASE k = "find" -> {<<k, v, p, f>> : v \in Needles, p \in {q \in Poss : q >= 0 /\ q <= s.n}, f \in 0..2} \cup {<<k, v, p, 0>> : v \in Needles, p \in Poss}
    [] k \in {"find_c", "contains_c"} -> {<<k, c, p>> : c \in Chars, p \in {q \in Poss : q >= 0 /\ q <= s.n}}
    [] k \in {"rfind", "last_of", "last_not_of", "first_of", "first_not_of"} -> {<<k, v, p, f>> : v \in Needles, p \in Poss, f \in 0..2}
    [] k \in {"rfind_c", "last_of_c", "last_not_of_c", "first_of_c", "first_not_of_c"} -> {<<k, c, p>> : c \in Chars, p \in Poss}
    [] k = "contains" -> {<<k, v, p, f>> : v \in Needles, p \in {q \in Poss : q >= 0 /\ q <= s.n}, f \in 0..2}
    [] k \in {"first_of_if", "first_not_of_if", "last_of_if", "last_not_of_if"} -> {<<k, c, p>> : c \in 0..4, p \in Poss}
    [] k = "match" -> {<<k, v, p>> : v \in Needles, p \in {q \in Poss : q >= 0 /\ q <= s.n}}
    [] k = "match2" -> {<<k, v, u, p>> : v \in Needles, u \in Needles, p \in {q \in Poss : q >= 0 /\ q <= s.n}}
    [] k \in {"search", "search_last"} -> {<<k, v, p>> : v \in Needles, p \in Poss}
    [] k \in {"starts", "ends", "cmp", "rel"} -> {<<k, v>> : v \in Needles \cup {W(s)}}
    [] k \in {"starts_c", "ends_c"} -> {<<k, c>> : c \in Chars}
    [] k = "cmp_sub" -> {<<k, p, m, v, f>> : p \in 0..s.n, m \in {0, 1, 2, -1}, v \in Needles, f \in 0..2}
    [] k = "cmp_sub2" -> UNION {{<<k, p, m, v, q, r>> : p \in 0..s.n, m \in {1, -1}, q \in 0..Len(v), r \in {1, 2, -1}} : v \in Needles}
    [] k = "at" -> {<<k, p>> : p \in Poss}
    [] k = "idx" -> {<<k, p>> : p \in 0..(s.n - 1)}
    [] k = "ends_acc" -> IF s.n > 0 THEN {<<k>>} ELSE {}
    [] k \in {"chars", "str", "hash"} -> {<<k>>}
    [] k = "copy" -> {<<k, c, p>> : c \in {0, 1, 2, -1}, p \in 0..s.n}
    [] k = "os" -> {<<k, w, l>> : w \in {0, 1, 3, 9, 20}, l \in 0..1}
    [] k = "win" -> UNION {{<<k, p, m>> : m \in 0..(Len(s.t) - p)} : p \in 0..Len(s.t)}
    [] k \in {"pf", "pb"} -> IF s.n > 0 THEN {<<k, u>> : u \in 0..1} ELSE {}
    [] k \in {"pfn", "pbn", "rp", "rs"} -> {<<k, c, 0>> : c \in Poss} \cup {<<k, c, 1>> : c \in 0..Min(MaxPos, s.n)} \cup (IF k \in {"rp", "rs"} THEN {<<k, 1, 2>>} \cup (IF s.n > 0 THEN {<<k, 1, 3>>} ELSE {}) ELSE {})
    [] k \in {"pfu", "pbu", "tpfu", "tpbu", "rpu"} -> {<<k, v, d>> : v \in Needles, d \in 0..1}
    [] k \in {"pfu_c", "pbu_c", "tpfu_c", "tpbu_c", "rpu_c"} -> {<<k, c, d>> : c \in Chars, d \in 0..1}
    [] k \in {"pfu_p", "pbu_p", "tpfu_p", "tpbu_p", "rpu_p"} -> {<<k, c, d>> : c \in 0..4, d \in 0..1}
    [] k = "pfw" -> {<<k, v>> : v \in Needles}
    [] k \in {"pfw_c", "rpw_c", "rsw_c"} -> {<<k, c>> : c \in Chars}
    [] k \in {"pfw_p", "rpw_p", "rsw_p"} -> {<<k, c>> : c \in 0..4}
    [] k \in {"trim", "tprefix", "tsuffix"} -> {<<k, c>> : c \in 0..1}
    [] k = "resize" -> {<<k, c>> : c \in 0..s.n}
    [] k \in {"clear", "reset"} -> {<<k>>}
    [] k = "substr" -> {<<k, p, c>> : p \in 0..s.n, c \in Poss} \cup {<<k, p, -2>> : p \in 0..s.n} \cup {<<k, 0, -3>>}
    [] k = "substr_u" -> UNION {{<<k, p, c>> : c \in (0..(s.n - p)) \cup {-2}} : p \in 0..s.n}
    [] k = "expand_p" -> IF s.n = 0 THEN {} ELSE {<<k, c>> : c \in {x \in 1..2 : x <= s.a}}
    [] k = "expand_s" -> IF s.n = 0 THEN {} ELSE {<<k, c>> : c \in {x \in 1..2 : s.a + s.n + x <= Len(s.t)}}
    [] k \in {"split", "rsplit"} -> {<<k, v, f>> : v \in {x \in Needles : Len(x) > 0}, f \in 0..1}
    [] k = "make" -> {<<k, f>> : f \in 0..8}

Rel(w, v) == LET c == Sgn(w, v) IN <<B(c = 0), B(c # 0), B(c < 0), B(c <= 0), B(c > 0), B(c >= 0), c>>
PosOf(m) == IF m = -1 THEN 1000 ELSE m
SubW(w, p, m) == SubSeq(w, p + 1, Min(Len(w), p + PosOf(m)))
Stream(w, width, left) == LET f == Rep(Max(0, width - Len(w)), 42) IN IF left = 1 THEN w \o f ELSE f \o w

\* set of admissible results of a query
Query(s, o) ==
  LET k == o[1]  w == W(s)  n == s.n IN
  CASE k = "find" -> {<<Find(w, o[2], o[3])>>}
    [] k = "find_c" -> {<<Find(w, <<o[2]>>, o[3])>>}
    [] k = "rfind" -> {<<RFind(w, o[2], o[3])>>}
    [] k = "rfind_c" -> {<<RFind(w, <<o[2]>>, o[3])>>}
    [] k = "contains" -> {<<B(Find(w, o[2], IF o[4] = 0 THEN 0 ELSE o[3]) # -1)>>}
    [] k = "contains_c" -> {<<B(Find(w, <<o[2]>>, o[3]) # -1)>>}
    [] k = "first_of" -> {<<From(InSet(w, Ran(o[2])), o[3])>>}
    [] k = "first_of_c" -> {<<From(InSet(w, {o[2]}), o[3])>>}
    [] k = "last_of" -> LastOf(InSet(w, Ran(o[2])), o[3], n)
    [] k = "last_of_c" -> LastOf(InSet(w, {o[2]}), o[3], n)
    [] k = "first_not_of" -> {<<From(NotIn(w, Ran(o[2])), o[3])>>}
    [] k = "first_not_of_c" -> {<<From(NotIn(w, {o[2]}), o[3])>>}
    [] k = "last_not_of" -> {<<UpTo(NotIn(w, Ran(o[2])), o[3])>>}
    [] k = "last_not_of_c" -> {<<UpTo(NotIn(w, {o[2]}), o[3])>>}
    [] k = "first_of_if" -> {<<From(InSet(w, PredSet(o[2])), o[3])>>}
    [] k = "first_not_of_if" -> {<<From(NotIn(w, PredSet(o[2])), o[3])>>}
    \* the position argument of find_last_of_if is undocumented: both readings (inclusive, exclusive) are accepted
    [] k = "last_of_if" -> {<<UpTo(InSet(w, PredSet(o[2])), o[3])>>} \cup (IF o[3] >= 1 THEN {<<UpTo(InSet(w, PredSet(o[2])), o[3] - 1)>>} ELSE IF o[3] = 0 THEN {<<-1>>} ELSE {})
    [] k = "last_not_of_if" -> {<<UpTo(NotIn(w, PredSet(o[2])), o[3])>>}
    [] k = "match" -> {<<Find(w, o[2], o[3]), Find(w, o[2], o[3])>>}
    [] k = "match2" -> LET x == Find(w, o[2], o[4])  y == Find(w, o[3], o[4]) IN {<<IF x = -1 THEN y ELSE IF y = -1 THEN x ELSE Min(x, y)>>}
    [] k = "search" -> {<<IF o[2] = <<>> \/ o[3] = -1 THEN -1 ELSE Find(w, o[2], o[3])>>}
    [] k = "search_last" -> {<<IF o[2] = <<>> \/ o[3] = -1 THEN -1 ELSE Greatest({i \in Occs(w, o[2]) : i >= o[3]})>>}
    [] k = "starts" -> {<<B(IsPrefixOf(o[2], w)), B(IsPrefixOf(o[2], w))>>}
    [] k = "ends" -> {<<B(IsSuffixOf(o[2], w)), B(IsSuffixOf(o[2], w))>>}
    [] k = "starts_c" -> {<<B(n > 0 /\ w[1] = o[2])>>}
    [] k = "ends_c" -> {<<B(n > 0 /\ w[n] = o[2])>>}
    [] k = "cmp" -> LET c == Sgn(w, o[2]) IN {<<c, c, c, -c, Sgn(o[2], w)>>}
    [] k = "rel" -> {Rel(w, o[2]) \o Rel(w, o[2]) \o Rel(o[2], w)}
    [] k = "cmp_sub" -> {<<Sgn(SubW(w, o[2], o[3]), o[4])>>}
    [] k = "cmp_sub2" -> {<<Sgn(SubW(w, o[2], o[3]), SubW(o[4], o[5], o[6]))>>}
    [] k = "at" -> {IF o[2] >= 0 /\ o[2] < n THEN <<0, w[o[2] + 1]>> ELSE <<1>>}
    [] k = "idx" -> {<<w[o[2] + 1]>>}
    [] k = "ends_acc" -> {<<w[1], w[n]>>}
    [] k = "chars" -> {<<n, n, B(n = 0)>> \o w \o Rev(w) \o w \o Rev(w)}
    [] k = "copy" -> LET x == SubW(w, o[3], o[2]) IN {<<Len(x)>> \o x \o <<77>>}
    [] k = "str" -> {w \o w \o w}
    [] k = "hash" -> {<<1>>}
    [] k = "os" -> {Stream(w, o[2], o[3]) \o <<0>>}

Piece(a, n) == IF n = 0 THEN <<-1, 0>> ELSE <<a, n>>
\* effect of a modifier: [a, n, ret]
M(a, n, r) == [a |-> a, n |-> n, ret |-> r]
Mod(s, o) ==
  LET k == o[1]  w == W(s)  n == s.n  a == s.a
      \* front: split at p, delimiter length d, keep the delimiter iff o[3] = 1
      FrontAt(p, d) == IF p = -1 THEN M(a + n, 0, Piece(a, n)) ELSE LET x == IF o[3] = 1 THEN p ELSE p + d IN M(a + x, n - x, Piece(a, p))
      TryFrontAt(p, d) == IF p = -1 THEN M(a, n, <<-1, 0>>) ELSE FrontAt(p, d)
      BackAt(p, d) == IF p = -1 THEN M(a + n, 0, Piece(a, n)) ELSE M(a, IF o[3] = 1 THEN p + d ELSE p, Piece(a + p + d, n - p - d))
      TryBackAt(p, d) == IF p = -1 THEN M(a, n, <<-1, 0>>) ELSE BackAt(p, d)
      Pre(x) == M(a + x, n - x, Piece(a, x))
      Suf(x) == M(a, x, Piece(a + x, n - x))
      NoRet(m) == [m EXCEPT !.ret = <<>>]
      PF(S) == Least(InSet(w, S))
      PB(S) == Greatest(InSet(w, S))
  IN
  CASE k = "pf" -> M(a + 1, n - 1, <<w[1]>>)
    [] k = "pb" -> M(a, n - 1, <<w[n]>>)
    [] k = "pfn" -> Pre(Min(PosOf(o[2]), n))
    [] k = "pbn" -> Suf(n - Min(PosOf(o[2]), n))
    [] k = "rp" -> NoRet(Pre(Min(PosOf(o[2]), n)))
    [] k = "rs" -> NoRet(Suf(n - Min(PosOf(o[2]), n)))
    [] k = "pfu" -> FrontAt(Find(w, o[2], 0), Len(o[2]))
    [] k = "pfu_c" -> FrontAt(Find(w, <<o[2]>>, 0), 1)
    [] k = "pfu_p" -> FrontAt(PF(PredSet(o[2])), 1)
    [] k = "tpfu" -> TryFrontAt(Find(w, o[2], 0), Len(o[2]))
    [] k = "tpfu_c" -> TryFrontAt(Find(w, <<o[2]>>, 0), 1)
    [] k = "tpfu_p" -> TryFrontAt(PF(PredSet(o[2])), 1)
    [] k = "rpu" -> NoRet(FrontAt(Find(w, o[2], 0), Len(o[2])))
    [] k = "rpu_c" -> NoRet(FrontAt(Find(w, <<o[2]>>, 0), 1))
    [] k = "rpu_p" -> NoRet(FrontAt(PF(PredSet(o[2])), 1))
    [] k = "pbu" -> BackAt(RFind(w, o[2], -1), Len(o[2]))
    [] k = "pbu_c" -> BackAt(RFind(w, <<o[2]>>, -1), 1)
    [] k = "pbu_p" -> BackAt(PB(PredSet(o[2])), 1)
    [] k = "tpbu" -> TryBackAt(RFind(w, o[2], -1), Len(o[2]))
    [] k = "tpbu_c" -> TryBackAt(RFind(w, <<o[2]>>, -1), 1)
    [] k = "tpbu_p" -> TryBackAt(PB(PredSet(o[2])), 1)
    [] k = "pfw" -> Pre(PreIdx(w, Ran(o[2])))
    [] k = "pfw_c" -> Pre(PreIdx(w, {o[2]}))
    [] k = "pfw_p" -> Pre(PreIdx(w, PredSet(o[2])))
    [] k = "rpw_c" -> NoRet(Pre(PreIdx(w, {o[2]})))
    [] k = "rpw_p" -> NoRet(Pre(PreIdx(w, PredSet(o[2]))))
    [] k = "rsw_c" -> NoRet(Suf(SufIdx(w, {o[2]})))
    [] k = "rsw_p" -> NoRet(Suf(SufIdx(w, PredSet(o[2]))))
    \* trims: o[2] = 1 is the copying form, which leaves the view and returns the trimmed piece
    [] k = "tprefix" -> LET x == PreIdx(w, Spaces) IN IF o[2] = 1 THEN M(a, n, Piece(a + x, n - x)) ELSE M(a + x, n - x, <<>>)
    [] k = "tsuffix" -> LET x == SufIdx(w, Spaces) IN IF o[2] = 1 THEN M(a, n, Piece(a, x)) ELSE M(a, x, <<>>)
    [] k = "trim" -> LET x == PreIdx(w, Spaces)  y == Max(x, SufIdx(w, Spaces)) IN
                     IF o[2] = 1 THEN M(a, n, Piece(a + x, y - x)) ELSE M(a + x, y - x, <<>>)
    [] k = "resize" -> M(a, o[2], <<>>)
    [] k \in {"clear", "reset"} -> M(a, 0, <<>>)
    [] k \in {"substr", "substr_u"} -> LET m == IF o[3] < 0 THEN n - o[2] ELSE Min(o[3], n - o[2]) IN M(a, n, Piece(a + o[2], m))
    [] k = "expand_p" -> M(a - o[2], n + o[2], <<>>)
    [] k = "expand_s" -> M(a, n + o[2], <<>>)
    [] k = "win" -> M(o[2], o[3], <<>>)
    [] k = "split" -> M(a + n, 0, Split(w, IF o[3] = 1 THEN <<o[2][1]>> ELSE o[2], a))
    [] k = "rsplit" -> M(a + n, 0, RSplit(w, IF o[3] = 1 THEN <<o[2][1]>> ELSE o[2], a))
    [] k = "make" -> M(a, n, w)

NextS(s, o) == IF o[1] \in QKinds THEN s
               ELSE LET m == Mod(s, o) IN [s EXCEPT !.a = m.a, !.n = m.n]
\* result of a modifier: <<first, length, zt, zt of returned piece>> \o ret
Step(s, o) == [s |-> NextS(s, o), r |-> IF o[1] \in QKinds THEN CHOOSE x \in Query(s, o) : TRUE ELSE <<>>]
\* a view may call itself zero terminated only when it ends where the zero is
ZtOk(s, zt, end) == zt = 0 \/ (s.e = 2 /\ end = Len(s.t))
Post(s, o, r) ==
  IF o[1] \in QKinds THEN (IF r \in Query(s, o) THEN {s} ELSE {})
  ELSE LET m == Mod(s, o)  q == NextS(s, o)  p == Piece(m.a, m.n) IN
       IF Len(r) >= 4 /\ r[1] = p[1] /\ r[2] = p[2] /\ SubSeq(r, 5, Len(r)) = m.ret
          /\ ZtOk(s, r[3], m.a + m.n)
          /\ (Len(m.ret) # 2 \/ m.ret[1] = -1 \/ ZtOk(s, r[4], m.ret[1] + m.ret[2]))
       THEN {q} ELSE {}
Expect(s, o) == IF o[1] \in QKinds THEN Query(s, o) ELSE <<"window", Piece(Mod(s, o).a, Mod(s, o).n), "returned", Mod(s, o).ret>>
=============================================================================
