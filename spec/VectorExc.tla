------------------------------ MODULE VectorExc ------------------------------
(***************************************************************************)
(* daw::vector under throwing element operations.                          *)
(* <<"tp", f, op...>> runs op on a scratch replica of the population in    *)
(* which the f-th element operation throws.  Recorded:                     *)
(*   <<thrown, lifetime errors, stray objects, size, contents...,          *)
(*     size after a further push_back, its last element,                   *)
(*     objects left after destroying the replica>>                         *)
(* The main population is untouched, so every probe is a self loop and the *)
(* exploration enumerates (state, operation, failing point).               *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Lists, NV, MaxLen, MaxCap, Vals, MaxN, Enabled, MoveOnly, Trivial, Configs, Probe, MaxFuse
V == INSTANCE Vector
CInit(c) == V!CInit(c)
Inv(s) == V!Inv(s)
IsProbe(k) == Len(k) > 3 /\ SubSeq(k, 1, 3) = "tp."
Kinds(s) == V!Kinds(s) \cup {"tp." \o q : q \in Probe}
Ops(s, k) == IF IsProbe(k) THEN {<<"tp", f>> \o o : o \in V!Ops(s, SubSeq(k, 4, Len(k))), f \in 0..MaxFuse} ELSE V!Ops(s, k)
Step(s, o) == IF o[1] = "tp" THEN [s |-> s, r |-> <<>>] ELSE V!Step(s, o)
Expect(s, o) == IF o[1] = "tp" THEN <<V!Eff(s, SubSeq(o, 3, Len(o)))>> ELSE V!Expect(s, o)

\* operations whose failure must leave the contents as they were
Strong == {"push_c", "push_m", "push_alias", "emplace_back", "emplace_back_alias", "reserve", "resize", "resize_v", "append",
           "shrink", "pop_back_value", "ctor_n", "ctor_nv", "ctor_il", "ctor_range", "ctor_input", "ctor_copy"}
ProbeOk(s, o, r) ==
  LET q == s.v[o[2]]  e == V!Eff(s, o) IN
  /\ Len(r) >= 7 /\ r[4] >= 0 /\ Len(r) = 7 + r[4]
  /\ r[1] \in 0..1 /\ r[2] = 0 /\ r[3] = 0
  /\ LET n == r[4]  now == SubSeq(r, 5, 4 + n) IN
     /\ (r[1] = 0 => now = e.q)
     /\ (r[1] = 1 /\ o[1] \in Strong => now = q)
     /\ r[5 + n] = n + 1 /\ r[6 + n] = 7 /\ r[7 + n] = 0
Post(s, o, r) == IF o[1] = "tp" THEN (IF ProbeOk(s, SubSeq(o, 3, Len(o)), r) THEN {s} ELSE {}) ELSE V!Post(s, o, r)
=============================================================================
