-------------------------------- MODULE Hash --------------------------------
(***************************************************************************)
(* The hash functions: FNV-1a (daw_fnv1a_hash.h and daw_generic_hash.h, 32  *)
(* and 64 bits), SipHash-2-4 and MetroHash64. Words are sequences of bytes, *)
(* the lowest first, so every step of the algorithms is spelled out in      *)
(* arithmetic modulo 2^32 or 2^64. An operation hashes every text of a list *)
(* and returns the bytes of each hash. There is no state.                   *)
(***************************************************************************)
EXTENDS Util, TLC, Bitwise
CONSTANTS Grp, Depth, Configs

CInit(c) == [n |-> 0]
Inv(s) == s.n = 0

(* arithmetic modulo 256^Len *)
RECURSIVE AddC(_, _, _, _, _)
AddC(a, b, i, c, acc) == IF i > Len(a) THEN acc ELSE LET x == a[i] + b[i] + c IN AddC(a, b, i + 1, x \div 256, Append(acc, x % 256))
Add(a, b) == AddC(a, b, 1, 0, <<>>)
RECURSIVE Col(_, _, _, _)
Col(a, b, k, i) == IF i > k THEN 0 ELSE a[i] * b[k + 1 - i] + Col(a, b, k, i + 1)
RECURSIVE MulC(_, _, _, _, _)
MulC(a, b, k, c, acc) == IF k > Len(a) THEN acc ELSE LET x == Col(a, b, k, 1) + c IN MulC(a, b, k + 1, x \div 256, Append(acc, x % 256))
Mul(a, b) == MulC(a, b, 1, 0, <<>>)
XorW(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])
\* 0-based byte of a word, counted around
At(a, i) == a[((i + 4 * Len(a)) % Len(a)) + 1]
Rotl(a, n) == LET q == n \div 8 p == Pow(2, n % 8) IN TLCEval([i \in 1..Len(a) |-> ((At(a, i - 1 - q) * p) % 256) + ((At(a, i - 2 - q) * p) \div 256)])
Rotr(a, n) == Rotl(a, 8 * Len(a) - n)
W(q, n) == TLCEval([i \in 1..n |-> IF i <= Len(q) THEN q[i] ELSE 0])
\* the 8 bytes of a text from 0-based position p
Word(q, p) == TLCEval([i \in 1..8 |-> q[p + i]])

(* FNV-1a *)
Prime(w) == IF w = 8 THEN <<179, 1, 0, 0, 0, 1, 0, 0>> ELSE <<147, 1, 0, 1>>
Offset(w) == IF w = 8 THEN <<37, 35, 34, 132, 228, 156, 242, 203>> ELSE <<197, 157, 28, 129>>
RECURSIVE Fnv(_, _, _)
Fnv(w, h, q) == IF q = <<>> THEN h ELSE Fnv(w, Mul(XorW(h, W(<<Head(q)>>, w)), Prime(w)), Tail(q))
UpToNul(q) == LET S == {i \in 1..Len(q) : q[i] = 0} IN IF S = {} THEN q ELSE Take(q, MinS(S) - 1)
FnvOf(w, form, q) == Fnv(w, Offset(w), IF form \in {5, 8} THEN UpToNul(q) ELSE q)

(* SipHash-2-4 *)
HalfRound(v, a, b, c, d, s, t) ==
  LET va == Add(v[a], v[b]) vc == Add(v[c], v[d]) vb == XorW(Rotl(v[b], s), va) vd == XorW(Rotl(v[d], t), vc)
  IN [v EXCEPT ![a] = Rotl(va, 32), ![b] = vb, ![c] = vc, ![d] = vd]
SipRound(v) == LET x == HalfRound(v, 1, 2, 3, 4, 13, 16) IN HalfRound(x, 3, 2, 1, 4, 17, 21)
DRound(v) == LET x == SipRound(v) IN SipRound(x)
Absorb(v, m) == LET x == DRound([v EXCEPT ![4] = XorW(@, m)]) IN [x EXCEPT ![1] = XorW(@, m)]
RECURSIVE SipBody(_, _, _)
SipBody(v, q, n) == IF Len(q) >= 8 THEN SipBody(Absorb(v, Word(q, 0)), Drop(q, 8), n) ELSE Absorb(v, Append(W(q, 7), n % 256))
Sip(key, q) ==
  LET k0 == Word(key, 0) k1 == Word(key, 8)
      v == SipBody(<<XorW(k0, <<117,101,115,112,101,109,111,115>>), XorW(k1, <<109,111,100,110,97,114,111,100>>),
                     XorW(k0, <<97,114,101,110,101,103,121,108>>), XorW(k1, <<115,101,116,121,98,100,101,116>>)>>, q, Len(q))
      x == DRound([v EXCEPT ![3] = XorW(@, W(<<255>>, 8))])
      y == DRound(x)
  IN XorW(XorW(y[1], y[2]), XorW(y[3], y[4]))

(* MetroHash64 *)
K0 == <<245, 24, 208, 214, 0, 0, 0, 0>>
K1 == <<59, 3, 170, 162, 0, 0, 0, 0>>
K2 == <<193, 47, 153, 98, 0, 0, 0, 0>>
K3 == <<41, 91, 188, 48, 0, 0, 0, 0>>
RECURSIVE M32(_, _)
M32(v, q) ==
  IF Len(q) < 32 THEN [v |-> v, q |-> q]
  ELSE LET a == Add(Rotr(Add(v[1], Mul(Word(q, 0), K0)), 29), v[3])
           b == Add(Rotr(Add(v[2], Mul(Word(q, 8), K1)), 29), v[4])
           c == Add(Rotr(Add(v[3], Mul(Word(q, 16), K2)), 29), a)
           d == Add(Rotr(Add(v[4], Mul(Word(q, 24), K3)), 29), b)
       IN M32(<<a, b, c, d>>, Drop(q, 32))
Mix4(v) ==
  LET c == XorW(v[3], Mul(Rotr(Add(Mul(Add(v[1], v[4]), K0), v[2]), 37), K1))
      d == XorW(v[4], Mul(Rotr(Add(Mul(Add(v[2], c), K1), v[1]), 37), K0))
      a == XorW(v[1], Mul(Rotr(Add(Mul(Add(v[1], c), K0), d), 37), K1))
      b == XorW(v[2], Mul(Rotr(Add(Mul(Add(v[2], d), K1), c), 37), K0))
  IN XorW(a, b)
\* one remaining piece of n bytes: mixed in with the given rotation
Piece(x, n, rot) ==
  IF Len(x.q) < n THEN x
  ELSE LET h == Add(x.h, Mul(W(Take(x.q, n), 8), K3)) IN [h |-> XorW(h, Mul(Rotr(h, rot), K1)), q |-> Drop(x.q, n)]
Sixteen(x) ==
  IF Len(x.q) < 16 THEN x
  ELSE LET a == Mul(Rotr(Add(x.h, Mul(Word(x.q, 0), K2)), 29), K3)
           b == Mul(Rotr(Add(x.h, Mul(Word(x.q, 8), K2)), 29), K3)
           a2 == XorW(a, Add(Rotr(Mul(a, K0), 21), b))
           b2 == XorW(b, Add(Rotr(Mul(b, K3), 21), a2))
       IN [h |-> Add(x.h, b2), q |-> Drop(x.q, 16)]
Metro(seed, q) ==
  LET h0 == Mul(Add(seed, K2), K0)
      x0 == IF Len(q) < 32 THEN [h |-> h0, q |-> q]
            ELSE LET m == M32(<<h0, h0, h0, h0>>, q) IN [h |-> Add(h0, Mix4(m.v)), q |-> m.q]
      x5 == Piece(Piece(Piece(Piece(Sixteen(x0), 8, 55), 4, 26), 2, 48), 1, 37)
      f == Mul(XorW(x5.h, Rotr(x5.h, 28)), K0)
  IN XorW(f, Rotr(f, 29))

(* texts *)
Pat(p, n) ==
  TLCEval([i \in 1..n |-> CASE p = 1 -> (i - 1) % 256
                    [] p = 2 -> 255 - ((i * 7) % 128)
                    [] p = 3 -> IF i = n THEN 200 ELSE 97
                    [] p = 4 -> (i * 131 + 89) % 256
                    [] OTHER -> 0])
MaxLen == 41 + 32 * Depth
Runs(p, lo, hi) == TLCEval([i \in 1..(hi - lo + 1) |-> Pat(p, lo + i - 1)])
Pool == {0, 1, 127, 128, 255}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Short(n) == SeqOf(SeqsN(Pool, n))
Lists(w) ==  \* lists of texts whose lengths are multiples of w
  CASE w = 1 -> {Short(0), Short(1), Short(2)} \cup {Runs(p, lo, lo + 9) : p \in {2, 4}, lo \in {0, 10, 20}}
    [] OTHER -> {[i \in 1..3 |-> Pat(p, w * i)] : p \in 1..5} \cup {[i \in 1..(4 * w) |-> [Pat(5, 2 * w) EXCEPT ![((i - 1) % (2 * w)) + 1] = IF i <= 2 * w THEN 128 ELSE 255]]}
Keys == {Pat(p, 16) : p \in {1, 2, 5}} \cup {[i \in 1..16 |-> 255]}
Seeds == {W(<<>>, 8), <<1, 2, 3, 4, 5, 6, 7, 200>>, [i \in 1..8 |-> 255], W(<<255, 255>>, 8)}
Long == {Runs(4, 126, 130), Runs(2, 254, 258)} \cup {Runs(p, lo, Min(lo + 7, MaxLen)) : p \in 1..5, lo \in {8 * j : j \in 0..(MaxLen \div 8)}} \cup {Short(1), Short(2)}
\* every form of a call takes elements of these widths
\* FNV-1a: 1 iterators 2 string like 3 array 4 integer 5 C string 6 object 7 function on integer 8 function on C string 9 function on pointer and length 10 function on string like 11 appended by hand
\* generic: 1 iterators 3 array 4 integer 6 object 7 function on integer 9 function on pointer and length 10 function on string like (lvalue) 12 (rvalue) 13 function on iterators 14 function on an array of characters
Widths(form) == IF form \in {5, 8, 14} THEN {1} ELSE {1, 2, 4, 8}
One(form) == form \in {4, 6, 7}  \* exactly one element
ListsOf(form, w) == IF One(form) THEN {SeqOf({Pat(p, w) : p \in 1..5} \cup {[Pat(5, w) EXCEPT ![i] = v] : i \in 1..w, v \in {1, 128, 255}})}
                    ELSE IF form \in {3, 14} THEN {[i \in 1..Len(L) |-> Take(Pat(4, 4 * w) , w * i)] : L \in {Rep(3, 0)}} \cup {[i \in 1..3 |-> [j \in 1..(w * i) |-> 128 + ((i * j) % 100)]]}
                    ELSE Lists(w)

Kinds(s) == CASE Grp = 0 -> {"fnv8"} [] Grp = 1 -> {"fnv4"} [] Grp = 2 -> {"gen"} [] Grp = 3 -> {"sip"} [] OTHER -> {"metro"}
Ops(s, k) ==
  CASE k \in {"fnv8", "fnv4"} -> UNION {{<<k, f, w, sg, L>> : sg \in 0..1, L \in ListsOf(f, w)} : <<f, w>> \in {x \in (1..11) \X {1, 2, 4, 8} : x[2] \in Widths(x[1])}}
    [] k = "gen" -> UNION {{<<k, f, w, sg, hw, L>> : sg \in 0..1, hw \in IF f = 6 THEN {8} ELSE {4, 8}, L \in ListsOf(f, w)} : <<f, w>> \in {x \in {1, 3, 4, 6, 7, 9, 10, 12, 13, 14} \X {1, 2, 4, 8} : x[2] \in Widths(x[1])}}
    [] k = "sip" -> {<<k, key, L>> : key \in Keys, L \in Long}
    [] OTHER -> {<<k, seed, L>> : seed \in Seeds, L \in Long}

RECURSIVE Cat(_)
Cat(rows) == IF rows = <<>> THEN <<>> ELSE IF Len(rows) = 1 THEN rows[1]
             ELSE LET m == Len(rows) \div 2 IN Cat(SubSeq(rows, 1, m)) \o Cat(SubSeq(rows, m + 1, Len(rows)))
Expect(s, o) ==
  LET On(q, f(_)) == Cat([i \in 1..Len(q) |-> f(q[i])]) IN
  CASE o[1] = "fnv8" -> On(o[5], LAMBDA q : FnvOf(8, o[2], q))
    [] o[1] = "fnv4" -> On(o[5], LAMBDA q : FnvOf(4, o[2], q))
    [] o[1] = "gen" -> On(o[6], LAMBDA q : Fnv(o[5], Offset(o[5]), q))
    [] o[1] = "sip" -> On(o[3], LAMBDA q : Sip(o[2], q))
    [] OTHER -> On(o[3], LAMBDA q : Metro(o[2], q))
Step(s, o) == [s |-> s, r |-> Expect(s, o)]
Post(s, o, r) == IF r = Expect(s, o) THEN {s} ELSE {}

\* published values: FNV-1a of "" and "a", SipHash-2-4 of the empty text under the key 0..15
ASSUME /\ Fnv(8, Offset(8), <<97>>) = <<140, 236, 1, 134, 76, 220, 99, 175>>
       /\ Fnv(4, Offset(4), <<97>>) = <<44, 41, 12, 228>>
       /\ Sip(Pat(1, 16), <<>>) = <<49, 14, 14, 221, 71, 219, 111, 114>>
       /\ Sip(Pat(1, 16), Pat(1, 15)) = <<229, 69, 190, 73, 97, 202, 41, 161>>
=============================================================================
