----------------------------- MODULE Callables -----------------------------
(***************************************************************************)
(* Type erased callables.                                                  *)
(*  fn    daw::function: wrappers w[1], w[2], and w[3] with less storage;  *)
(*        owns its target                                                  *)
(*  ref   function_ref, view function_view: refer to their target          *)
(*  tab   function_table_t of three functions (arr: of one type)           *)
(*  bind  bind_front, bind_args_at, mutable_capture                        *)
(* A target is <<0>> none, <<1, k>> an owned adder of k, <<2, k, n>> an    *)
(* owned adder that counts its calls in n, <<3, i>> function i, <<4, i>>   *)
(* the caller's adder i (its value is src[i]), <<5>> a stateless callable, *)
(* <<9>> an object that was moved from and that may only be assigned to.   *)
(* Calling a target with x gives value * 100 + x; every call also sets a   *)
(* reference argument to x and takes the value of a move only argument.    *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Vals, Configs, MaxCalls

Wr(s) == CASE s.t = "fn" -> 1..3 [] s.t = "tab" -> 1..3 [] s.t = "bind" -> {} [] OTHER -> 1..2
CInit(c) == [t |-> c.t, arr |-> c.arr, src |-> <<1, 2>>,
   w |-> CASE c.t = "fn" -> <<<<0>>, <<0>>, <<0>>>> [] c.t = "tab" -> (IF c.arr = 1 THEN <<<<3, 1>>, <<3, 1>>, <<3, 2>>>> ELSE <<<<1, 0>>, <<3, 1>>, <<6>>>>) [] OTHER -> <<<<3, 1>>, <<3, 1>>, <<3, 1>>>>]
Inv(s) == \A i \in Wr(s) : s.w[i][1] \in 0..9
FnKinds == {"bindl", "bindr", "bindmut", "bindmutl", "bindfp", "bindfree", "bindnone", "bindunique", "copyc", "copya", "movec", "movea", "selfa", "widen", "widena", "call", "ccall", "empty", "srcset", "nested"}
RefKinds == {"bindl", "bindfp", "bindfree", "copyc", "copya", "movec", "movea", "selfa", "call", "ccall", "srcset"}
TabKinds == {"tcall", "tcallarg", "tset", "tsize", "tcopy"}
BindKinds == {"front", "frontm", "at0", "at1", "at2", "atc", "mcap"}
Kinds(s) == CASE s.t = "fn" -> FnKinds [] s.t \in {"ref", "view"} -> RefKinds [] s.t = "tab" -> TabKinds [] OTHER -> BindKinds
Dead(x) == x = <<9>>
Ops(s, k) ==
  LET W == Wr(s) IN
  CASE k = "bindl" -> {<<k, i, j, c>> : i \in W, j \in 1..2, c \in 0..1}
    [] k = "bindmutl" -> {<<k, i, j, c>> : i \in 1..2, j \in 1..2, c \in 0..1}
    [] k = "bindr" -> {<<k, i, v, c>> : i \in W, v \in Vals, c \in 0..1}
    [] k \in {"bindmut", "bindunique"} -> {<<k, i, v, c>> : i \in 1..2, v \in Vals, c \in 0..1}
    [] k = "bindfp" -> {<<k, i, j, c>> : i \in W, j \in 1..2, c \in 0..1}
    [] k = "bindfree" -> {<<k, i, c>> : i \in 1..2, c \in 0..3}
    [] k = "bindnone" -> {<<k, i, c>> : i \in W, c \in 0..3}
    [] k \in {"copyc", "copya", "movec", "movea"} -> {o \in {<<k, i, j, c>> : i \in 1..2, j \in 1..2, c \in 0..1} : o[2] # o[3] /\ ~Dead(s.w[o[3]]) /\ (k # "movea" \/ s.w[o[3]][1] # 7)
              /\ (s.w[o[3]][1] # 7 \/ k = "movec")}
    [] k = "selfa" -> {o \in {<<k, i>> : i \in 1..2} : ~Dead(s.w[o[2]]) /\ s.w[o[2]][1] # 7}
    [] k \in {"widen", "widena"} -> {o \in {<<k, i, c>> : i \in 1..2, c \in 0..1} : ~Dead(s.w[3]) /\ s.w[3][1] # 7}
    [] k \in {"call", "ccall"} -> {o \in {<<k, i, x>> : i \in W, x \in 3..4} : ~Dead(s.w[o[2]]) /\ (s.w[o[2]][1] = 2 => s.w[o[2]][3] < MaxCalls)}
    [] k = "empty" -> {o \in {<<k, i>> : i \in W} : ~Dead(s.w[o[2]])}
    [] k = "nested" -> {o \in {<<k, i, j>> : i \in 1..2, j \in 1..2} : o[2] # o[3]}
    [] k = "srcset" -> {<<k, i, v>> : i \in 1..2, v \in Vals}
    [] k = "tcall" -> {<<k, i, x, c>> : i \in (IF s.arr = 1 THEN 1..3 ELSE 1..2), x \in 3..4, c \in 0..1}
    [] k = "tcallarg" -> IF s.arr = 1 THEN {} ELSE {<<k, i, x>> : i \in 1..3, x \in 3..4}
    [] k = "tset" -> IF s.arr = 1 THEN {<<k, i, j>> : i \in 1..3, j \in 1..2} ELSE {<<k, 1, v>> : v \in Vals} \cup {<<k, 2, j>> : j \in 1..2}
    [] k \in {"tsize", "tcopy"} -> {<<k>>}
    [] OTHER -> {<<k, a, b, c>> : a \in Vals, b \in 3..4, c \in 5..6}

Value(s, x) == CASE x[1] \in {1, 2, 7} -> x[2] [] x[1] = 3 -> 10 * x[2] [] x[1] = 4 -> s.src[x[2]] [] x[1] = 5 -> 50
\* what a call returns: the value, the reference argument, the value of the argument that was moved, and the number of calls
Res(s, x, a) == <<Value(s, x) * 100 + a + (IF x[1] = 2 THEN 1000000 * (x[3] + 1) ELSE 0), a, a + 1, 1>>
Owns(s) == s.t = "fn"
Step(s, o) ==
  LET k == o[1]
      i == o[2]
      set(x) == [s |-> [s EXCEPT !.w[i] = x], r |-> <<>>]
      same(r) == [s |-> s, r |-> r] IN
  CASE k = "bindl" -> set(IF Owns(s) THEN <<1, s.src[o[3]]>> ELSE <<4, o[3]>>)
    [] k = "bindmutl" -> set(<<2, s.src[o[3]], 0>>)
    [] k = "bindr" -> set(<<1, o[3]>>)
    [] k = "bindunique" -> set(<<7, o[3]>>)
    [] k = "bindmut" -> set(<<2, o[3], 0>>)
    [] k = "bindfp" -> set(<<3, o[3]>>)
    [] k = "bindfree" -> set(<<5>>)
    [] k = "bindnone" -> set(<<0>>)
    [] k \in {"copyc", "copya"} -> set(s.w[o[3]])
    [] k \in {"movec", "movea"} -> [s |-> [s EXCEPT !.w[i] = s.w[o[3]], !.w[o[3]] = IF Owns(s) THEN <<9>> ELSE @], r |-> <<>>]
    [] k = "selfa" -> same(<<>>)
    [] k \in {"widen", "widena"} -> set(s.w[3])
    \* a copy of a copy that was made to own a copy of a wrapper of another signature
    [] k = "nested" -> set(<<1, s.src[o[3]]>>)
    [] k \in {"call", "ccall"} -> IF s.w[i] = <<0>> THEN same(<<-1>>)
           ELSE [s |-> IF s.w[i][1] = 2 THEN [s EXCEPT !.w[i][3] = @ + 1] ELSE s, r |-> Res(s, s.w[i], o[3])]
    [] k = "empty" -> same(<<B(s.w[i] = <<0>>), B(s.w[i] # <<0>>)>>)
    [] k = "srcset" -> [s |-> [s EXCEPT !.src[i] = o[3]], r |-> <<>>]
    [] k = "tcall" -> same(Res(s, s.w[i], o[3]))
    [] k = "tcallarg" -> same(IF i = 3 THEN <<77, 0, 0, 1>> ELSE Res(s, s.w[i], o[3]))
    [] k = "tset" -> set(IF s.arr = 0 /\ i = 1 THEN <<1, o[3]>> ELSE <<3, o[3]>>)
    [] k = "tsize" -> same(<<3>>)
    [] k = "tcopy" -> same(<<>>)
    [] k \in {"front", "frontm"} -> same(<<o[2], o[3], o[4], 1>>)
    [] k = "at0" -> same(<<o[2], o[3], o[4], 1>>)
    [] k \in {"at1", "atc"} -> same(<<o[3], o[2], o[4], 1>>)
    [] k = "at2" -> same(<<o[3], o[4], o[2], 1>>)
    [] k = "mcap" -> same(<<o[2], o[3], o[3], o[3], o[3], o[3]>>)
Expect(s, o) == Step(s, o).r
Post(s, o, r) == IF r = Expect(s, o) THEN {Step(s, o).s} ELSE {}
=============================================================================
