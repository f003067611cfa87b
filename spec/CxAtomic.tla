------------------------------ MODULE CxAtomic ------------------------------
(***************************************************************************)
(* An atomic cell under concurrent operations of c.n threads, judged by    *)
(* linearizability.  s.v is the value (two's complement, 8 bits), s.p[t]   *)
(* the pending operation of a thread: <<>> or                              *)
(*   [o |-> operation, lin |-> 0/1, ret |-> <<result, observed>>,          *)
(*    spur |-> 0/1, rem |-> steps left in the generator]                   *)
(* "call" begins an operation, "step" runs a thread to its next atomic     *)
(* access, "spur" makes the next weak compare exchange of a thread fail.   *)
(* The result of each is a sequence of returns <<t, result, observed>>.    *)
(* "ct" is an operation evaluated at compile time.                         *)
(* c.t = "once" is allow_once_t, c.t = "cnt" countable_resource_t.         *)
(***************************************************************************)
EXTENDS Util, TLC, Bitwise
CONSTANTS Vals, Configs, Fs, Calls, CtVals

W(x) == ((x + 128) % 256) - 128
U(x) == (x + 256) % 256
Arith == {"fadd", "fsub", "add", "sub"}
Inc == {"preinc", "postinc", "predec", "postdec"}
Bit == {"fand", "for", "fxor", "and", "or", "xor"}
Cas == {"cas", "casw", "cas2", "casw2"}
Plain == {"load", "conv", "store", "assign", "exchange", "copyc", "copya"}
AllF == Arith \cup Inc \cup Bit \cup Cas \cup Plain
\* [v, r, e]: new value, result, expected afterwards
Eff(v, f, a, b) ==
  LET w(x) == W(x) IN
  CASE f \in {"load", "conv", "copyc", "copya"} -> <<v, v, 0>>
    [] f \in {"store", "assign"} -> <<a, 0, 0>>
    [] f = "exchange" -> <<a, v, 0>>
    [] f \in Cas -> IF v = a THEN <<b, 1, a>> ELSE <<v, 0, v>>
    [] f = "fadd" -> <<w(v + a), v, 0>>
    [] f = "fsub" -> <<w(v - a), v, 0>>
    [] f = "add" -> <<w(v + a), w(v + a), 0>>
    [] f = "sub" -> <<w(v - a), w(v - a), 0>>
    [] f = "preinc" -> <<w(v + 1), w(v + 1), 0>>
    [] f = "postinc" -> <<w(v + 1), v, 0>>
    [] f = "predec" -> <<w(v - 1), w(v - 1), 0>>
    [] f = "postdec" -> <<w(v - 1), v, 0>>
    [] f = "fand" -> <<w(U(v) & U(a)), v, 0>>
    [] f = "for" -> <<w(U(v) | U(a)), v, 0>>
    [] f = "fxor" -> <<w(U(v) ^^ U(a)), v, 0>>
    [] f = "and" -> <<w(U(v) & U(a)), w(U(v) & U(a)), 0>>
    [] f = "or" -> <<w(U(v) | U(a)), w(U(v) | U(a)), 0>>
    [] f = "xor" -> <<w(U(v) ^^ U(a)), w(U(v) ^^ U(a)), 0>>
    \* allow_once_t
    [] f \in {"check", "bool"} -> <<1, v, 0>>
    [] f = "reset" -> <<0, 0, 0>>
    \* countable_resource_t
    [] f \in {"create", "clone"} -> <<v + 1, 0, 0>>
    [] f = "destroy" -> <<v - 1, 0, 0>>
    [] f = "value" -> <<v, v, 0>>
Fset(s) == CASE s.t = "once" -> {"check", "bool", "reset"}
   [] s.t = "cnt" -> {"create", "clone", "destroy", "value"}
   [] s.t = "bool" -> Fs \cap (Plain \cup Cas)
   [] s.t = "dbl" -> Fs \cap (Plain \cup Cas \cup Arith)
   [] OTHER -> Fs
Args(f) == CASE f \in {"load", "conv", "copyc", "copya", "check", "bool", "reset", "create", "clone", "destroy", "value"} \cup Inc -> {<<0, 0>>}
   [] f \in Cas -> {<<a, b>> : a \in Vals, b \in Vals}
   [] OTHER -> {<<a, 0>> : a \in Vals}
Steps(f) == IF f \in {"copyc", "copya"} THEN 3 ELSE 2

CInit(c) == [t |-> c.t, n |-> c.n, v |-> c.v, p |-> [i \in 1..c.n |-> <<>>], left |-> Calls,
             own |-> [i \in 1..c.n |-> 0], g |-> c.g, h |-> <<>>]
Inv(s) == s.v \in -128..127 /\ s.left >= 0
Kinds(s) == {"call", "step", "spur"} \cup (IF s.t = "i8" \/ s.t = "u8" THEN {"ct"} ELSE {})
Pend(s) == {i \in 1..s.n : s.p[i] # <<>>}
Ops(s, k) ==
  CASE k = "call" -> IF s.left = 0 THEN {} ELSE
         {<<"call", i, f, a[1], a[2]>> : <<i, f, a>> \in {x \in (1..s.n \ Pend(s)) \X Fset(s) \X ((Vals \cup {0}) \X (Vals \cup {0})) :
             x[3] \in Args(x[2]) /\ (x[2] = "destroy" => s.own[x[1]] > 0) /\ (x[2] = "clone" => s.own[x[1]] > 0)}}
    [] k = "step" -> {<<"step", i>> : i \in Pend(s)}
    [] k = "spur" -> {<<"spur", i>> : i \in {j \in Pend(s) : s.p[j].o[1] \in {"casw", "casw2"} /\ s.p[j].rem = 2 /\ s.p[j].spur = 0}}
    [] OTHER -> IF Pend(s) # {} \/ s.left # Calls THEN {} ELSE {<<"ct", f, v, a[1], a[2]>> : <<f, v, a>> \in {x \in (Fs \ {"copya"}) \X CtVals \X (CtVals \X CtVals) :
                   x[3] \in (IF x[1] \in Cas THEN CtVals \X {1, -128} ELSE IF Args(x[1]) = {<<0, 0>>} THEN {<<0, 0>>} ELSE CtVals \X {0})}}
\* the linearization of a pending operation; a weak compare exchange that was told to fail may do so
Lin(s, i) ==
  LET q == s.p[i]
      e == Eff(s.v, q.o[1], q.o[2], q.o[3])
      own == s.own[i] + (IF q.o[1] \in {"create", "clone"} THEN 1 ELSE IF q.o[1] = "destroy" THEN -1 ELSE 0) IN
  {[s EXCEPT !.v = e[1], !.own[i] = own, !.p[i] = [q EXCEPT !.lin = 1, !.ret = <<e[2], e[3]>>]]}
    \cup (IF q.spur = 1 /\ s.v = q.o[2] THEN {[s EXCEPT !.p[i] = [q EXCEPT !.lin = 1, !.ret = <<0, s.v>>]]} ELSE {})
RECURSIVE Close(_)
Close(S) == LET T == S \cup UNION {UNION {Lin(s, i) : i \in {j \in Pend(s) : s.p[j].lin = 0}} : s \in S} IN
  IF T = S THEN S ELSE Close(T)
\* one return
Ret(S, t, x, e) == {[s EXCEPT !.p[t] = <<>>] : s \in {q \in Close(S) : q.p[t] # <<>> /\ q.p[t].lin = 1 /\ q.p[t].ret = <<x, e>>}}
RECURSIVE Rets(_, _)
Rets(S, r) == IF r = <<>> \/ S = {} THEN S ELSE IF Len(r) < 3 THEN {} ELSE Rets(Ret(S, r[1], r[2], r[3]), SubSeq(r, 4, Len(r)))
Begin(s, o) == [s EXCEPT !.p[o[2]] = [o |-> <<o[3], o[4], o[5]>>, lin |-> 0, ret |-> <<0, 0>>, spur |-> 0, rem |-> Steps(o[3])], !.left = IF s.left = 0 THEN 0 ELSE @ - 1]
Spur(s, o) == IF s.p[o[2]] = <<>> THEN s ELSE [s EXCEPT !.p[o[2]].spur = 1]
Gh(s, o) == IF s.g = 0 THEN s ELSE [s EXCEPT !.h = Append(@, o[2])]
\* the generator: an operation takes effect at the last of its steps
Step(s, o) ==
  CASE o[1] = "ct" -> [s |-> s, r |-> <<>>]
    [] o[1] = "call" -> [s |-> Begin(s, o), r |-> <<>>]
    [] o[1] = "spur" -> [s |-> Spur(s, o), r |-> <<>>]
    [] OTHER -> LET q == s.p[o[2]] IN
         IF q.rem > 1 THEN [s |-> Gh([s EXCEPT !.p[o[2]].rem = @ - 1], o), r |-> <<>>]
         ELSE LET u == CHOOSE x \in Lin(s, o[2]) : TRUE IN [s |-> Gh([u EXCEPT !.p[o[2]] = <<>>], o), r |-> <<o[2], u.p[o[2]].ret[1], u.p[o[2]].ret[2]>>]
Expect(s, o) == IF o[1] = "fin" THEN <<"all operations returned, and the value", {x.v : x \in Close({s})}>>
  ELSE IF o[1] = "ct" THEN Eff(o[3], o[2], o[4], o[5]) ELSE {s2.p : s2 \in Close({s})}
Post(s, o, r) ==
  CASE o[1] = "ct" -> LET e == Eff(o[3], o[2], o[4], o[5]) IN IF r = <<e[2], e[1], e[3]>> THEN {s} ELSE {}
    \* if the thread was still running, it finished first
    [] o[1] = "call" -> IF s.p[o[2]] = <<>> THEN Rets({Begin(s, o)}, r)
                        ELSE IF Len(r) < 3 \/ r[1] # o[2] THEN {} ELSE UNION {Rets({Begin(x, o)}, SubSeq(r, 4, Len(r))) : x \in Ret({s}, r[1], r[2], r[3])}
    [] o[1] = "spur" -> Rets({Spur(s, o)}, r)
    [] o[1] = "fin" -> {x \in Rets({s}, SubSeq(r, 1, Len(r) - 1)) : Pend(x) = {} /\ x.v = r[Len(r)]}
    [] OTHER -> Rets({s}, r)
=============================================================================
