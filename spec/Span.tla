------------------------------- MODULE Span -------------------------------
(***************************************************************************)
(* A window [f, l) on a buffer b of n elements.                            *)
(*   t = "span"  daw::span<T>            t = "cspan" daw::span<T const>    *)
(*   t = "view"  daw::view<T *>          t = "lview" daw::view<list iter>  *)
(*   t = "cv"    daw::contiguous_view<T> t = "ccv"   ... <T const>         *)
(*   t = "wr"    daw::span_writer<T>     t = "wts"   write_to_span         *)
(* Every result ends with the window and the whole buffer: the buffer sits *)
(* between canaries that the driver checks too.                            *)
(* f = -1: a window that denotes no place (made from a null pointer).      *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Vals, Configs

CInit(c) == [t |-> c.t, b |-> c.b, f |-> 0, l |-> Len(c.b)]
N(s) == Len(s.b)
Sz(s) == s.l - s.f
W(s) == IF Sz(s) = 0 THEN <<>> ELSE SubSeq(s.b, s.f + 1, s.l)
Inv(s) == \/ s.f = -1 /\ s.l = -1
          \/ 0 <= s.f /\ s.f <= s.l /\ s.l <= N(s)
Mut(s) == s.t \in {"span", "view", "lview", "cv", "wr", "wts"}
IsCv(s) == s.t \in {"cv", "ccv"}
IsWr(s) == s.t \in {"wr", "wts"}
IsSp(s) == s.t \in {"span", "cspan"}
IsVw(s) == s.t \in {"view", "lview"}

Kinds(s) ==
  IF s.t = "wts" THEN {"new", "write", "writer", "ntz", "ntzbad"}
  ELSE IF s.t = "wr" THEN {"obs", "new", "newbad", "write", "writer", "ntz", "ntzbad", "rmp", "sub", "set", "idxbad"}
  ELSE {"obs", "new", "rmp", "rms", "popf", "popb", "at"}
       \cup (IF Mut(s) THEN {"set"} ELSE {})
       \cup (IF IsSp(s) THEN {"newnull", "newrev", "sub", "popfn", "popbn", "pop", "copy", "swapw"} ELSE {})
       \cup (IF IsVw(s) THEN {"popfn", "popbn", "pop"} ELSE {})
       \cup (IF IsCv(s) THEN {"newbad", "sub", "rmpx", "rmsx", "find", "findnot", "rmuntil", "rmwhile", "popuntil", "popwhile", "cmp", "addp", "adds", "conv", "swapw"} ELSE {})

Idx(s) == 0..(Sz(s) - 1)
NewWays(s) == IF IsSp(s) THEN {"pc", "pp", "arr", "cont"} ELSE IF IsVw(s) THEN {"pp"} ELSE IF IsCv(s) THEN {"pc", "pp", "arr", "cont", "contn"} ELSE {"cont", "contn"}
SetWays(s) == IF s.t = "wr" THEN {"idx", "it", "data"} ELSE {"idx", "at", "it", "data", "rit"}
Counts(s) == {0, 1, 2, Sz(s), Sz(s) + 1, Sz(s) + 3}
Ops(s, k) ==
  CASE k = "new" -> {o \in {<<k, w, i, j>> : w \in NewWays(s), i \in 0..N(s), j \in 0..N(s)} :
                        /\ o[3] <= o[4]
                        /\ o[2] \in {"arr", "cont"} => o[3] = 0 /\ o[4] = N(s)
                        /\ o[2] = "contn" => o[3] = 0}
    [] k = "newbad" -> {<<k, N(s) + 1>>, <<k, N(s) + 4>>}
    [] k = "newrev" -> {o \in {<<k, i, j>> : i \in 0..N(s), j \in 0..N(s)} : o[2] < o[3]}
    [] k = "newnull" -> {<<k, c>> : c \in {0, 2}}
    [] k = "rmp" -> {<<k, c>> : c \in IF IsCv(s) \/ s.t = "wr" THEN Counts(s) ELSE 0..Sz(s)}
    [] k = "rms" -> {<<k, c>> : c \in IF IsCv(s) THEN Counts(s) ELSE 0..Sz(s)}
    [] k \in {"rmpx", "rmsx"} -> {<<k, c>> : c \in 0..Sz(s)}
    [] k \in {"popf", "popb"} -> IF Sz(s) > 0 THEN {<<k>>} ELSE {}
    [] k \in {"popfn", "popbn"} -> {<<k, c>> : c \in Counts(s)}
    [] k = "at" -> {<<k, i, c>> : i \in 0..(Sz(s) + 1), c \in 0..1}
    [] k = "set" -> {<<k, i, v, w>> : i \in Idx(s), v \in Vals, w \in SetWays(s)} \cup (IF Sz(s) > 0 /\ s.t # "wr" THEN {<<k, 0, v, "front">> : v \in Vals} \cup {<<k, Sz(s) - 1, v, "back">> : v \in Vals} ELSE {})
    [] k = "idxbad" -> {<<k, i>> : i \in {Sz(s), Sz(s) + 2}}
    [] k = "sub" -> IF s.t = "wr" THEN {<<k, p>> : p \in 0..(Sz(s) + 1)}
                    ELSE {<<k, p, c, m>> : p \in 0..(Sz(s) + 1), c \in {-1, 0, 1, 2, Sz(s), Sz(s) + 1}, m \in 0..1}
    [] k \in {"find", "findnot"} -> {<<k, v, c>> : v \in Vals, c \in 0..1}
    [] k \in {"rmuntil", "rmwhile", "popuntil", "popwhile"} -> {<<k, v, d>> : v \in Vals, d \in 0..1}
    [] k = "cmp" -> {<<k, q>> : q \in SeqsUpTo(Vals, 2) \cup {W(s)} \cup (IF Sz(s) > 0 THEN {Take(W(s), Sz(s) - 1)} ELSE {}) \cup {W(s) \o <<1>>}}
    [] k = "addp" -> {<<k, c>> : c \in 0..s.f}
    [] k = "adds" -> {<<k, c>> : c \in 0..(IF s.f = -1 THEN -1 ELSE N(s) - s.l)}
    [] k = "write" -> {<<k, q>> : q \in SeqsUpTo(Vals, 3)}
    [] k = "writer" -> {<<k, q, w>> : q \in SeqsUpTo(Vals, 3), w \in {"arr", "vec", "wide"}}
    [] k = "ntz" -> {<<k, c>> : c \in 0..3}
    [] OTHER -> {<<k>>}

\* window and buffer at the end of every result
Sfx(s) == <<IF Sz(s) = 0 THEN 0 ELSE s.f, Sz(s)>> \o s.b
At(s, f, l) == [s EXCEPT !.f = f, !.l = l]
\* a part [f, l) that was returned
Part(f, l) == <<IF f = l THEN 0 ELSE f, l - f>>
Run(s, v) == LET w == W(s) IN MinS({i \in 0..Sz(s) : i = Sz(s) \/ w[i + 1] # v})
Pos(s, v) == LET w == W(s) IN MinS({i \in 0..Sz(s) : i = Sz(s) \/ w[i + 1] = v})
Put(s, q) == LET b2 == [i \in 1..N(s) |-> IF i > s.f /\ i <= s.f + Len(q) THEN q[i - s.f] ELSE s.b[i]]
             IN [s EXCEPT !.b = b2, !.f = @ + Len(q)]
Text == <<1, 3, 2>>  \* characters of the literals
\* refused: 1, and nothing changed
St(s, o) ==
  LET k == o[1] IN
  CASE k = "obs" -> <<s, <<Sz(s), B(Sz(s) = 0)>> \o W(s) \o Rev(W(s)) \o (IF Sz(s) > 0 /\ s.t # "wr" THEN <<W(s)[1], W(s)[Sz(s)]>> ELSE <<>>)>>
    [] k = "new" -> <<At(s, o[3], o[4]), <<>>>>
    [] k = "newbad" -> <<s, <<1>>>>
    [] k = "ntzbad" -> <<s, <<1>>>>
    [] k = "newrev" -> <<At(s, o[3], o[3]), <<>>>>
    [] k = "newnull" -> <<At(s, -1, -1), <<1>>>>
    [] k = "rmp" -> IF s.t = "wr" THEN IF o[2] > Sz(s) THEN <<s, <<1>>>> ELSE <<At(s, s.f + o[2], s.l), <<0>>>>
                    ELSE <<At(s, s.f + Min(o[2], Sz(s)), s.l), <<>>>>
    [] k = "rmpx" -> <<At(s, s.f + o[2], s.l), <<>>>>
    [] k \in {"rms", "rmsx"} -> <<At(s, s.f, s.l - Min(o[2], Sz(s))), <<>>>>
    [] k = "popf" -> <<At(s, s.f + 1, s.l), <<s.b[s.f + 1]>>>>
    [] k = "popb" -> <<At(s, s.f, s.l - 1), <<s.b[s.l]>>>>
    [] k = "popfn" -> LET c == Min(o[2], Sz(s)) IN <<At(s, s.f + c, s.l), <<0>> \o Part(s.f, s.f + c)>>
    [] k = "popbn" -> IF IsSp(s) /\ o[2] > Sz(s) THEN <<s, <<1>>>>
                      ELSE LET c == Min(o[2], Sz(s)) IN <<At(s, s.f, s.l - c), <<0>> \o Part(s.l - c, s.l)>>
    [] k = "pop" -> IF Sz(s) = 0 THEN <<s, <<0, -9>>>>
                    ELSE IF IsSp(s) THEN <<At(s, s.f, s.l - 1), <<1, s.b[s.l]>>>> ELSE <<At(s, s.f + 1, s.l), <<1, s.b[s.f + 1]>>>>
    [] k = "at" -> <<s, IF o[2] < Sz(s) THEN <<0, W(s)[o[2] + 1]>> ELSE <<1>>>>
    [] k = "set" -> <<[s EXCEPT !.b[s.f + o[2] + 1] = o[3]], <<>>>>
    [] k = "idxbad" -> <<s, <<1, 1>>>>
    [] k = "sub" -> IF s.t = "wr" THEN IF o[2] > Sz(s) THEN <<s, <<1>>>> ELSE <<At(s, s.f + o[2], s.l), <<0>>>>
                    ELSE IF IsSp(s) /\ o[2] > Sz(s) THEN <<s, <<1>>>>
                    ELSE LET p == s.f + Min(o[2], Sz(s)) e == IF o[3] = -1 THEN s.l ELSE Min(s.l, p + o[3]) IN <<At(s, p, e), <<0>>>>
    [] k = "find" -> <<s, <<Pos(s, o[2])>>>>
    [] k = "findnot" -> <<s, <<Run(s, o[2])>>>>
    [] k \in {"rmuntil", "popuntil", "rmwhile", "popwhile"} ->
         LET p == IF k \in {"rmuntil", "popuntil"} THEN Pos(s, o[2]) ELSE Run(s, o[2])
             c == Min(Sz(s), p + o[3])
         IN <<At(s, s.f + c, s.l), IF k \in {"popuntil", "popwhile"} THEN Part(s.f, s.f + p) ELSE <<>>>>
    [] k = "cmp" -> LET a == W(s) q == o[2] IN <<s, <<B(a = q), B(a # q), B(LexLt(a, q)), B(LexLt(q, a)), B(~LexLt(q, a)), B(~LexLt(a, q))>>>>
    [] k = "addp" -> <<At(s, s.f - o[2], s.l), <<>>>>
    [] k = "adds" -> <<At(s, s.f, s.l + o[2]), <<>>>>
    [] k = "conv" -> <<s, W(s)>>
    [] k = "copy" -> <<s, Sfx(s) \o Part(s.f, s.l)>>
    [] k = "swapw" -> <<s, <<>>>>
    [] k \in {"write", "writer"} -> IF Len(o[2]) > Sz(s) THEN <<s, <<1>>>> ELSE <<Put(s, o[2]), <<0>>>>
    [] k = "ntz" -> IF o[2] > Sz(s) THEN <<s, <<1>>>> ELSE <<Put(s, Take(Text, o[2])), <<0>>>>
Step(s, o) == LET x == St(s, o) IN [s |-> x[1], r |-> x[2] \o Sfx(x[1])]
Expect(s, o) == Step(s, o).r
Post(s, o, r) == IF r = Expect(s, o) THEN {Step(s, o).s} ELSE {}
=============================================================================
