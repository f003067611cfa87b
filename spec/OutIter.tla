------------------------------ MODULE OutIter -------------------------------
(***************************************************************************)
(* Output iterators: every assignment through any copy of the iterator      *)
(* delivers the value, once, to the target it was made for. Values are      *)
(* 10 * key + tag; sorted targets are ordered by key only, and where a      *)
(* value goes among its equals is left open.                                *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Limit, Configs

Vals == {10, 11, 20, 31}
AllKinds == {"back", "endv", "endl", "set", "mset", "fn", "os", "sv", "sd", "sl", "svg", "sdg", "slg"}
AllConfigs == [k : AllKinds]
CInit(c) == [k |-> c.k, q |-> <<>>]
Key(x) == x \div 10
Before(k, x, y) == IF k \in {"svg", "sdg", "slg"} THEN Key(x) > Key(y) ELSE Key(x) < Key(y)
IsSortedBy(k, q) == \A i \in 1..(Len(q) - 1) : ~Before(k, q[i + 1], q[i])
Inv(s) == s.k \in {"sv", "sd", "sl", "svg", "sdg", "slg"} => IsSortedBy(s.k, s.q)

Kinds(s) == IF Len(s.q) >= Limit THEN {"clear"} ELSE {"put", "assign", "copy", "clear"}
\* w: which of two iterators for the same target
Ops(s, k) ==
  CASE k \in {"put", "assign"} -> {<<k, w, v>> : w \in 1..2, v \in Vals}
    [] k = "copy" -> {<<k, w, vs>> : w \in 1..2, vs \in {<<>>, <<20, 10>>, <<31, 11, 10>>, <<10, 10>>}}
    [] OTHER -> {<<k>>}

\* all the contents that delivering x may give
Deliver(k, q, x) ==
  CASE k \in {"back", "endv", "endl", "fn", "os"} -> {Append(q, x)}
    [] k = "set" -> {IF x \in Ran(q) THEN q ELSE SetSeq(Ran(q) \cup {x})}
    [] k = "mset" -> {InsSorted(q, x)}
    [] OTHER -> {p \in {Ins(q, i, <<x>>) : i \in 0..Len(q)} : IsSortedBy(k, p)}
RECURSIVE DeliverAll(_, _, _)
DeliverAll(k, qs, xs) == IF xs = <<>> THEN qs ELSE DeliverAll(k, UNION {Deliver(k, q, xs[1]) : q \in qs}, Tail(xs))
May(s, o) == IF o[1] = "clear" THEN {<<>>} ELSE DeliverAll(s.k, {s.q}, IF o[1] = "copy" THEN o[3] ELSE <<o[3]>>)
Step(s, o) == LET q == CHOOSE p \in May(s, o) : TRUE IN [s |-> [s EXCEPT !.q = q], r |-> q]
Expect(s, o) == Step(s, o).r
Post(s, o, r) == IF r \in May(s, o) THEN {[s EXCEPT !.q = r]} ELSE {}
=============================================================================
