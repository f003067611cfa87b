------------------------------ MODULE SharedFn ------------------------------
(***************************************************************************)
(* shared_function / weak_shared_function on c.n threads.  Every thread    *)
(* has two strong slots st[t] and two weak slots wk[t] holding an object   *)
(* (0 = null).  alive[o]: the callable exists; stor[o]: its storage does.  *)
(* p[t] is the pending operation, <<>> or [o |-> <<f, i, j>>, lin, ret,    *)
(* spur, rem].  An operation takes effect at one instant between its call  *)
(* and its return.  Events, each <<kind, thread, x>>:                      *)
(*   1 return with result x   2 callable x is destroyed (by the thread)    *)
(*   3 the storage of x is released   4 a call of x runs                   *)
(*   5 an access that races with another (no happens-before)               *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Configs, Fs, Calls

CInit(c) == [n |-> c.n, st |-> c.st, wk |-> c.wk, g |-> c.g, h |-> <<>>, left |-> Calls,
             alive |-> [o \in 1..2 |-> IF \E t \in 1..c.n : o \in Ran(c.st[t]) THEN 1 ELSE 0],
             stor |-> [o \in 1..2 |-> IF \E t \in 1..c.n : o \in Ran(c.st[t]) THEN 1 ELSE 0],
             cap |-> c.cap, p |-> [t \in 1..c.n |-> <<>>]]
Pend(s) == {t \in 1..s.n : s.p[t] # <<>>}
\* cap[x] is the callable that the callable x holds a strong handle of
Strong(s, o) == (\E t \in 1..s.n : \E i \in 1..2 : s.st[t][i] = o) \/ (\E x \in 1..2 : s.alive[x] = 1 /\ s.cap[x] = o)
Weak(s, o) == \E t \in 1..s.n : \E i \in 1..2 : s.wk[t][i] = o
Inv(s) == \A o \in 1..2 : (s.alive[o] = 1 => s.stor[o] = 1) /\ (Strong(s, o) => s.alive[o] = 1) /\ (Weak(s, o) => s.stor[o] = 1)
Kinds(s) == {"call", "step", "spur"}
Steps(f) == CASE f = "lock" -> 4 [] f \in {"drop", "dropd", "move", "copy", "copyc"} -> 3 [] f \in {"run", "wcopy"} -> 2 [] OTHER -> 2
Two(f) == {"copy", "copyc", "move", "movec", "wcopy", "wmove"}
Ops(s, k) ==
  CASE k = "call" -> IF s.left = 0 THEN {} ELSE
       {x \in {<<"call", t, f, i, j>> : <<t, f, i, j>> \in (1..s.n \ Pend(s)) \X Fs \X (1..2) \X (1..2)} :
          LET t == x[2]
              f == x[3]
              i == x[4]
              j == x[5] IN
          /\ (f \in {"drop", "dropd", "run", "bool", "wdrop", "unwrap", "unwrapm"} => j = 1)
          /\ (f \in {"copyc", "movec"} => i # j)
          /\ (f = "run" => s.st[t][i] # 0)
          /\ (f = "lock" => s.st[t][j] = 0)
          /\ (s.g = 1 => CASE f \in {"copy", "copyc", "move", "movec", "drop", "dropd", "weak"} -> s.st[t][i] # 0
                           [] f \in {"lock", "wcopy", "wmove", "wdrop"} -> s.wk[t][i] # 0 [] OTHER -> TRUE)}
    [] k = "step" -> {<<"step", t>> : t \in Pend(s)}
    [] OTHER -> {<<"spur", t>> : t \in {u \in Pend(s) : s.p[u].o[1] = "lock" /\ s.p[u].rem = 4 /\ s.p[u].spur = 0}}
\* the state after the operation took effect, and the result of the operation
Lin(s, t) ==
  LET q == s.p[t]
      f == q.o[1]
      i == q.o[2]
      j == q.o[3]
      fin(u, r) == [u EXCEPT !.p[t].lin = 1, !.p[t].ret = r]
      o == s.st[t][i]
      w == s.wk[t][i] IN
  CASE f \in {"copy", "copyc"} -> fin([s EXCEPT !.st[t][j] = o], 0)
    [] f \in {"move", "movec"} -> fin(IF i = j THEN s ELSE [s EXCEPT !.st[t][j] = o, !.st[t][i] = 0], 0)
    [] f \in {"drop", "dropd"} -> fin([s EXCEPT !.st[t][i] = 0], 0)
    [] f = "unwrap" -> fin(IF o = 0 \/ s.cap[Max(o, 1)] = 0 THEN s ELSE [s EXCEPT !.st[t][i] = s.cap[o]], 0)
    [] f = "unwrapm" -> fin(IF o = 0 \/ s.cap[Max(o, 1)] = 0 THEN s ELSE [s EXCEPT !.st[t][i] = s.cap[o], !.cap[o] = 0], 0)
    [] f = "run" -> fin(s, IF o = 0 THEN -1 ELSE 10 * o + i)
    [] f = "bool" -> fin(s, B(o # 0))
    [] f = "weak" -> fin([s EXCEPT !.wk[t][j] = o], 0)
    [] f = "wcopy" -> fin([s EXCEPT !.wk[t][j] = w], 0)
    [] f = "wmove" -> fin(IF i = j THEN s ELSE [s EXCEPT !.wk[t][j] = w, !.wk[t][i] = 0], 0)
    [] f = "wdrop" -> fin([s EXCEPT !.wk[t][i] = 0], 0)
    [] f = "lock" -> IF w # 0 /\ Strong(s, w) THEN fin([s EXCEPT !.st[t][j] = w], 1) ELSE fin(s, 0)
RECURSIVE Close(_)
Close(S) == LET T == S \cup UNION {{Lin(s, t) : t \in {u \in Pend(s) : s.p[u].lin = 0}} : s \in S} IN IF T = S THEN S ELSE Close(T)
Event(S, k, t, x) ==
  LET C == Close(S) IN
  CASE k = 1 -> {[s EXCEPT !.p[t] = <<>>] : s \in {q \in C : q.p[t] # <<>> /\ q.p[t].lin = 1 /\ q.p[t].ret = x}}
    [] k = 2 -> {[s EXCEPT !.alive[x] = 0] : s \in {q \in C : q.alive[x] = 1 /\ ~Strong(q, x)}}
    [] k = 3 -> {[s EXCEPT !.stor[x] = 0] : s \in {q \in C : q.stor[x] = 1 /\ q.alive[x] = 0 /\ ~Strong(q, x) /\ ~Weak(q, x)}}
    [] k = 4 -> {s \in S : s.alive[x] = 1 /\ s.p[t] # <<>> /\ s.p[t].o[1] = "run" /\ s.st[t][s.p[t].o[2]] = x}
    [] OTHER -> {}
RECURSIVE Events(_, _)
Events(S, r) == IF r = <<>> \/ S = {} THEN S ELSE IF Len(r) < 3 THEN {} ELSE Events(Event(S, r[1], r[2], r[3]), SubSeq(r, 4, Len(r)))
\* when nothing is in progress, exactly the shared callables and the referenced storages exist
Quiet(s) == Pend(s) = {} => \A o \in 1..2 : (s.alive[o] = 1 => Strong(s, o)) /\ (s.stor[o] = 1 => Strong(s, o) \/ Weak(s, o))
Begin(s, o) == [s EXCEPT !.p[o[2]] = [o |-> <<o[3], o[4], o[5]>>, lin |-> 0, ret |-> 0, spur |-> 0, rem |-> Steps(o[3])], !.left = IF s.left = 0 THEN 0 ELSE @ - 1]
Gh(s, t) == IF s.g = 0 THEN s ELSE [s EXCEPT !.h = Append(@, t)]
\* what disappears when nothing refers to it any more
RECURSIVE Die(_)
Die(s) == LET u == [s EXCEPT !.alive = [o \in 1..2 |-> IF Strong(s, o) THEN @[o] ELSE 0], !.stor = [o \in 1..2 |-> IF Strong(s, o) \/ Weak(s, o) THEN @[o] ELSE 0]]
  IN IF u = s THEN s ELSE Die(u)
Dead(s, t) == Flat([o \in 1..2 |-> (IF s.alive[o] = 1 /\ ~Strong(s, o) THEN <<2, t, o>> ELSE <<>>) \o (IF s.stor[o] = 1 /\ ~Strong(s, o) /\ ~Weak(s, o) THEN <<3, t, o>> ELSE <<>>)])
Step(s, o) ==
  CASE o[1] = "call" -> [s |-> Begin(s, o), r |-> <<>>]
    [] o[1] = "spur" -> [s |-> [s EXCEPT !.p[o[2]].spur = 1], r |-> <<>>]
    [] OTHER -> LET t == o[2]
                    q == s.p[t] IN
         IF q.rem > 1 THEN [s |-> Gh([s EXCEPT !.p[t].rem = @ - 1], t), r |-> <<>>]
         ELSE LET u == Lin(s, t) IN [s |-> Gh(Die([u EXCEPT !.p[t] = <<>>]), t), r |-> Dead(u, t) \o <<1, t, u.p[t].ret>>]
Post(s, o, r) ==
  {x \in (CASE o[1] = "call" -> IF s.p[o[2]] = <<>> THEN Events({Begin(s, o)}, r)
            \* the previous operation of this thread had not returned yet: it does so first
            ELSE UNION {{Begin(x, o) : x \in {y \in Events({s}, SubSeq(r, 1, 3 * n)) : y.p[o[2]] = <<>>}} : n \in 1..(Len(r) \div 3)}
    [] OTHER -> Events({s}, r)) : Quiet(x) /\ (o[1] = "fin" => Pend(x) = {})}
Expect(s, o) == <<s.st, s.wk, s.alive, s.stor, s.p>>
=============================================================================
