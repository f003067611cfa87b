----------------------------- MODULE AtomicWait -----------------------------
(***************************************************************************)
(* The waits of daw_atomic_wait.h on one atomic (value s.v, s.i its number *)
(* of stores), with a clock s.now in microseconds that the history         *)
(* controls.  p[t] is the pending wait of a thread:                        *)
(*   <<>> or [f, x, dl, ord, seen], dl the deadline, seen all <<number of  *)
(*   the store, value>> that the atomic had since the call.                *)
(* "run" gives a thread a number of steps, "store" changes the value, with *)
(* or without notification, "adv" advances the clock.  The result is a     *)
(* sequence of returns <<t, status, time, k>>: status 0 found, 1 timeout,  *)
(* 2 an untimed wait; k the last store that happens before the return.     *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Configs, Fs, Xs, Ds, Ns, Advs, Ords, Budget

Timed(f) == f \in {"for", "until", "iffor", "ifuntil", "eqfor", "equntil"}
Cond(f, x, v) == CASE f \in {"for", "until"} -> v # x
                   [] f \in {"if", "iffor", "ifuntil"} -> v >= x
                   [] OTHER -> v = x
CInit(c) == [n |-> c.n, v |-> c.v, i |-> 0, now |-> 0, dt |-> c.dt, left |-> Budget, p |-> [t \in 1..c.n |-> <<>>]]
Inv(s) == s.v \in 0..9 /\ \A t \in 1..s.n : s.p[t] # <<>> => <<s.i, s.v>> \in s.p[t].seen
Kinds(s) == {"call", "run", "store", "adv"}
Pend(s) == {t \in 1..s.n : s.p[t] # <<>>}
Ops(s, k) ==
  IF s.left = 0 THEN {} ELSE
  CASE k = "call" -> {<<"call", t, f, x, d, o>> : <<t, f, x, d, o>> \in {y \in (1..s.n \ Pend(s)) \X Fs \X Xs \X Ds \X Ords : Timed(y[2]) \/ y[4] = CHOOSE d \in Ds : TRUE}}
    [] k = "run" -> {<<"run", t, n>> : t \in Pend(s), n \in Ns}
    [] k = "store" -> IF Pend(s) = {} /\ s.i > 1 THEN {} ELSE {<<"store", v, ntf>> : v \in Xs, ntf \in 0..1}
    [] OTHER -> IF Pend(s) = {} THEN {} ELSE {<<"adv", d>> : d \in Advs}
Begin(s, o) == [s EXCEPT !.p[o[2]] = [f |-> o[3], x |-> o[4], dl |-> s.now + o[5], ord |-> o[6], seen |-> {<<s.i, s.v>>}]]
Store(s, v) == [s EXCEPT !.v = v, !.i = @ + 1, !.p = [t \in 1..s.n |-> IF @[t] = <<>> THEN <<>> ELSE [@[t] EXCEPT !.seen = @ \cup {<<s.i + 1, v>>}]]]
Ok(s, t, st, now, k) ==
  /\ t \in Pend(s) /\ now >= s.now
  /\ LET q == s.p[t] IN
     IF st = 1 THEN Timed(q.f) /\ now >= q.dl /\ \E e \in q.seen : ~Cond(q.f, q.x, e[2])
     ELSE /\ st = (IF Timed(q.f) THEN 0 ELSE 2)
          /\ \E e \in q.seen : Cond(q.f, q.x, e[2]) /\ (q.ord = 2 \/ e[1] <= k)
Ret(s, t, st, now, k) == IF Ok(s, t, st, now, k) THEN {[s EXCEPT !.p[t] = <<>>, !.now = now]} ELSE {}
RECURSIVE Rets(_, _)
Rets(s, r) == IF r = <<>> THEN {s} ELSE IF Len(r) < 4 THEN {} ELSE UNION {Rets(x, SubSeq(r, 5, Len(r))) : x \in Ret(s, r[1], r[2], r[3], r[4])}
\* every operation reports the time at its end first
Run(s, r) == IF Len(r) = 0 THEN {} ELSE {[x EXCEPT !.now = r[1]] : x \in {y \in Rets(s, Tail(r)) : y.now <= r[1]}}
Dec(s) == [s EXCEPT !.left = IF @ = 0 THEN 0 ELSE @ - 1]
Step(s, o) ==
  LET u == Dec(s) IN
  CASE o[1] = "call" -> [s |-> Begin(u, o), r |-> <<>>]
    [] o[1] = "store" -> [s |-> Store(u, o[2]), r |-> <<>>]
    [] o[1] = "adv" -> [s |-> [u EXCEPT !.now = @ + o[2]], r |-> <<>>]
    [] OTHER -> LET q == s.p[o[2]] IN
         IF o[3] >= 40 /\ (Cond(q.f, q.x, s.v) \/ (Timed(q.f) /\ s.now >= q.dl /\ o[3] > 100))
         THEN [s |-> [u EXCEPT !.p[o[2]] = <<>>], r |-> <<>>] ELSE [s |-> u, r |-> <<>>]
Post(s, o, r) ==
  LET u == Dec(s) IN
  CASE o[1] = "call" -> IF s.p[o[2]] # <<>> THEN (IF r = <<s.now, -7>> THEN {u} ELSE {}) ELSE Run(Begin(u, o), r)
    [] o[1] = "store" -> Run(Store(u, o[2]), r)
    [] o[1] = "adv" -> Run([u EXCEPT !.now = @ + o[2]], r)
    [] o[1] = "fin" -> \* notified and given all the time: who has not returned waits, untimed, for something that is not so
         LET m == r[1]
             X == IF Len(r) < m + 1 THEN {} ELSE Run(u, SubSeq(r, 2, m + 1))
             stuck == Ran(Drop(r, m + 1)) IN
         {x \in X : Pend(x) = stuck /\ \A t \in stuck : ~Timed(x.p[t].f) /\ ~Cond(x.p[t].f, x.p[t].x, x.v)}
    [] OTHER -> Run(u, r)
Expect(s, o) == <<s.now, s.p>>
=============================================================================
