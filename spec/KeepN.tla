-------------------------------- MODULE KeepN -------------------------------
(***************************************************************************)
(* daw_keep_n.h: the n first values, in the order asked for, of what has    *)
(* been inserted and n copies of the initial value. c.ord: 0 ascending,       *)
(* 1 descending, 2 ascending by the tens, 3 descending by the tens, 4       *)
(* ascending by greater. Values that are equal in the order keep the order  *)
(* they came in.                                                            *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Configs, Vals

CInit(c) == [o |-> c.ord, q |-> Rep(c.n, c.d)]
Key(o, x) == IF o \in {2, 3} THEN x \div 10 ELSE x
Before(o, x, y) == IF o \in {1, 3, 4} THEN Key(o, x) > Key(o, y) ELSE Key(o, x) < Key(o, y)
Inv(s) == \A i, j \in 1..Len(s.q) : i < j => ~Before(s.o, s.q[j], s.q[i])
Put(s, x) ==
  LET P == {i \in 1..Len(s.q) : Before(s.o, x, s.q[i])}
  IN IF P = {} THEN s ELSE [s EXCEPT !.q = Take(Ins(s.q, MinS(P) - 1, <<x>>), Len(s.q))]
Kinds(s) == {"ins", "insm", "own", "copy"}
Ops(s, k) ==
  CASE k \in {"ins", "insm"} -> {<<k, x>> : x \in Vals}
    [] k = "own" -> {<<k, i>> : i \in 0..(Len(s.q) - 1)}
    [] OTHER -> {<<k>>}
Eff(s, o) ==
  CASE o[1] \in {"ins", "insm"} -> Put(s, o[2])
    [] o[1] = "own" -> Put(s, s.q[o[2] + 1])
    [] OTHER -> s
Step(s, o) == LET t == Eff(s, o) IN [s |-> t, r |-> t.q]
Expect(s, o) == Step(s, o).r
Post(s, o, r) == IF r = Step(s, o).r THEN {Step(s, o).s} ELSE {}
=============================================================================
