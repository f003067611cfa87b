------------------------------ MODULE Queues ------------------------------
(***************************************************************************)
(* t = "ring": ring_adaptor over a container of n cells, a FIFO queue of   *)
(*   at most n elements. h counts the elements that ever left the queue    *)
(*   modulo n; it may not be observable, it is kept so that every content  *)
(*   is exercised at every position of the storage.                        *)
(* t = "bits": basic_bit_queue<w bit queue, v bit value>, and              *)
(* t = "nib":  basic_nibble_queue.  q is the string of bits held, most     *)
(*   significant (first pushed) first; pushing appends the low bits of the *)
(*   value at the least significant end, pop_front takes bits from the     *)
(*   least significant end and pop_back from the most significant one (the *)
(*   repository's own test fixes these ends).  Values are bit strings of   *)
(*   length v; e tells how the bytes of a pushed value are to be read.     *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Vals, Pats, Configs

CInit(c) == [c |-> c, t |-> c.t, n |-> c.n, q |-> <<>>, h |-> 0]
L(s) == Len(s.q)
Inv(s) == L(s) <= s.n /\ (s.t # "ring" => \A i \in 1..L(s) : s.q[i] \in 0..1)

RingKinds == {"push", "pushm", "emplace", "pushself", "popf", "clear", "set", "get", "list", "meta", "copy"}
BitKinds == {"bpush", "bpushall", "bpopf", "bpopb", "bmeta", "value", "bclear", "popall", "bcopy", "ctor"}
NibKinds == {"npush", "npushn", "npopf", "npopfd", "nmeta", "value", "bclear", "popall", "bcopy", "ctor"}
Kinds(s) == CASE s.t = "ring" -> RingKinds [] s.t = "bits" -> BitKinds [] s.t = "nib" -> NibKinds
Room(s) == s.n - L(s)
V(s) == s.c.v
\* bit patterns of length n
Pat(p, n) == CASE p = 0 -> Rep(n, 0) [] p = 1 -> Rep(n, 1) [] p = 2 -> [i \in 1..n |-> i % 2] [] p = 3 -> [i \in 1..n |-> B(i = n)]
  [] p = 4 -> [i \in 1..n |-> B(i = 1)] [] OTHER -> [i \in 1..n |-> ((i * i + p * i + (i * p) \div 5 + i \div 3) \div 2) % 2]
PatsOf(n) == {Pat(p, n) : p \in Pats}
Ops(s, k) ==
  CASE k \in {"push", "pushm", "emplace"} -> IF Room(s) > 0 THEN {<<k, v>> : v \in Vals} ELSE {}
    [] k = "pushself" -> IF Room(s) > 0 THEN {<<k, i>> : i \in 0..(L(s) - 1)} ELSE {}
    [] k = "popf" -> IF L(s) > 0 THEN {<<k>>} ELSE {}
    [] k = "set" -> {<<k, i, v, w>> : i \in 0..(L(s) - 1), v \in Vals, w \in {"idx", "it"}}
    [] k = "get" -> {<<k, i>> : i \in 0..(L(s) - 1)}
    [] k = "bpush" -> {<<k, x, b>> : x \in PatsOf(V(s)), b \in 0..Min(Room(s), V(s))}
    [] k = "bpushall" -> IF Room(s) >= V(s) THEN {<<k, x>> : x \in PatsOf(V(s))} ELSE {}
    [] k \in {"bpopf", "bpopb"} -> {<<k, b>> : b \in 0..Min(L(s), V(s))}
    [] k = "npush" -> IF Room(s) >= 4 THEN {<<k, x>> : x \in PatsOf(V(s))} ELSE {}
    [] k = "npushn" -> {<<k, x, b>> : x \in PatsOf(V(s)), b \in 0..(Min(Room(s), V(s)) \div 4)}
    [] k = "npopf" -> {<<k, b>> : b \in 0..(Min(L(s), V(s)) \div 4)}
    [] k = "npopfd" -> IF L(s) >= V(s) THEN {<<k>>} ELSE {}
    [] k = "popall" -> IF L(s) <= V(s) THEN {<<k>>} ELSE {}
    [] k = "ctor" -> {<<k, x>> : x \in PatsOf(s.n)}
    [] OTHER -> {<<k>>}
\* bytes of x in the opposite order
RECURSIVE SwapBytes(_)
SwapBytes(x) == IF x = <<>> THEN <<>> ELSE SwapBytes(Drop(x, 8)) \o Take(x, 8)
Native(s, x) == IF s.c.e = "big" THEN SwapBytes(x) ELSE x
Low(x, b) == Drop(x, Len(x) - b)
Pad(x, n) == Rep(n - Len(x), 0) \o x
Step(s, o) ==
  LET k == o[1]
      app(x) == [s EXCEPT !.q = @ \o x]
      popf(b) == [s |-> [s EXCEPT !.q = Take(@, L(s) - b)], r |-> Pad(Low(s.q, b), V(s))]
      to(x) == [s |-> [s EXCEPT !.q = x], r |-> <<>>] IN
  CASE k \in {"push", "pushm", "emplace"} -> [s |-> app(<<o[2]>>), r |-> <<o[2]>>]
    [] k = "pushself" -> [s |-> app(<<s.q[o[2] + 1]>>), r |-> <<s.q[o[2] + 1]>>]
    [] k = "popf" -> [s |-> [s EXCEPT !.q = Drop(@, 1), !.h = (@ + 1) % s.n], r |-> <<s.q[1]>>]
    [] k = "clear" -> [s |-> [s EXCEPT !.q = <<>>, !.h = 0], r |-> <<>>]
    [] k = "set" -> [s |-> [s EXCEPT !.q[o[2] + 1] = o[3]], r |-> <<>>]
    [] k = "get" -> [s |-> s, r |-> Rep(2, s.q[o[2] + 1])]
    [] k = "list" -> [s |-> s, r |-> s.q]
    [] k = "meta" -> [s |-> s, r |-> <<L(s), B(L(s) = 0), B(L(s) = s.n), s.n>>]
    [] k \in {"copy", "bcopy"} -> [s |-> s, r |-> <<>>]
    [] k = "bpush" -> to(s.q \o Low(Native(s, o[2]), o[3]))
    [] k = "bpushall" -> to(s.q \o Native(s, o[2]))
    [] k = "bpopf" -> popf(o[2])
    [] k = "bpopb" -> [s |-> [s EXCEPT !.q = Drop(@, o[2])], r |-> Pad(Take(s.q, o[2]), V(s))]
    [] k = "npush" -> to(s.q \o Low(o[2], 4))
    [] k = "npushn" -> to(s.q \o Low(o[2], 4 * o[3]))
    [] k = "npopf" -> popf(4 * o[2])
    [] k = "npopfd" -> popf(V(s))
    [] k = "value" -> [s |-> s, r |-> Pad(s.q, s.n)]
    [] k = "bclear" -> to(<<>>)
    [] k = "popall" -> [s |-> [s EXCEPT !.q = <<>>], r |-> Pad(s.q, V(s))]
    [] k = "ctor" -> to(o[2])
    [] k = "bmeta" -> [s |-> s, r |-> <<L(s), B(L(s) = 0), B(L(s) = s.n), s.n>> \o [i \in 1..(s.n + 2) |-> B(i - 1 <= L(s))]]
    [] k = "nmeta" -> [s |-> s, r |-> <<L(s) \div 4, B(L(s) = 0), B(L(s) = s.n), s.n \div 4, B(V(s) <= L(s))>> \o [i \in 1..((s.n \div 4) + 2) |-> B(4 * (i - 1) <= L(s))]]
Expect(s, o) == Step(s, o).r
Post(s, o, r) == IF r = Expect(s, o) THEN {Step(s, o).s} ELSE {}
=============================================================================
