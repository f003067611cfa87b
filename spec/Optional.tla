----------------------------- MODULE Optional -----------------------------
(***************************************************************************)
(* Two objects s.o[1], s.o[2] of one of the "maybe a value" types:         *)
(*  opt   daw::optional<T>      <<>> or <<v>>                              *)
(*  oref  daw::optional<T &>    <<>> or <<cell>>, s.cells the cells        *)
(*  exp   expected_t<T>, expv expected_t<void>, cexp checked_expected_t<T> *)
(*  cexpv checked_expected_t<void>:                                        *)
(*        <<0>> empty, <<1, e, fresh>> exception e, <<2, v>> value         *)
(*  take  take_t<T>             <<v>>                                      *)
(*  val   validated<T>          <<v>>, valid values are 1, 2, 3 ..         *)
(*  up    union_pair_t<A, B>    <<0, v>>, <<1, v>> or <<2>>                *)
(* Moved is the value an object of the element type has after it was moved *)
(* from; <<1, 0, 0>> is an exception pointer that was moved from.          *)
(* fresh = 1 if the exception object was made by the library, so that its  *)
(* identity is not that of any other.                                      *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Vals, Configs

Moved == -7
Excs == {1, 2, 3}        \* runtime_error, system_error, and something that is not a std::exception
Init0(t) == CASE t \in {"opt", "oref"} -> <<>> [] t \in {"exp", "expv", "cexp", "cexpv"} -> <<0>> [] t \in {"take", "val"} -> <<0>> [] t = "up" -> <<2>>
CInit(c) == [t |-> c.t, o |-> <<Init0(c.t), Init0(c.t)>>, cells |-> <<0, 0>>]
IsVoid(s) == s.t \in {"expv", "cexpv"}
IsChk(s) == s.t \in {"cexp", "cexpv"}
Inv(s) == \A i \in 1..2 :
   CASE s.t \in {"opt", "oref"} -> Len(s.o[i]) <= 1
     [] s.t \in {"take", "val"} -> Len(s.o[i]) = 1
     [] s.t = "up" -> s.o[i][1] \in 0..2
     [] OTHER -> s.o[i][1] \in 0..2

OptKinds == {"ctorv", "ctorl", "ctorn", "asgv", "asgl", "asgn", "emplace", "emplace0", "reset", "swap", "copya", "movea", "copyc", "movec", "get", "getm", "setv", "cmp", "cmpn", "cmpv"}
RefKinds == {"bind", "reset", "asgn", "swap", "copya", "copyc", "rget", "rset", "cmp", "cmpn", "ctorn"}
ExpKinds == {"setv", "setvm", "asgv", "asgvm", "ctorv", "ctorvm", "setx", "asgx", "ctorx", "ctorxtag", "ctorcur", "setcur", "clear", "code", "ctorcode", "codefree", "codefreer", "excfree", "excfreep",
             "copya", "movea", "copyc", "movec", "eget", "egetm", "obs", "throwif", "eq", "esetref"}
ExpvKinds == ExpKinds \ {"ctorv", "ctorvm", "egetm", "esetref"}
CexpKinds == {"ctorv", "asgv", "ctorx", "asgx", "ctorxtag", "ctorcur", "code", "ctorcode", "codefree", "codefn", "copya", "movea", "copyc", "movec", "eget", "obs", "throwif", "eq", "esetref", "conv"}
CexpvKinds == (CexpKinds \ {"ctorv", "esetref", "conv", "movea"}) \cup {"setv"}
TakeKinds == {"ctorv", "copya", "movea", "selfmove", "copyc", "movec", "tget", "tgetm", "tderefm", "treset", "setv", "tcmp", "tfree"}
ValKinds == {"vctor", "vctorl", "vinplace", "vasg", "vasgl", "vget", "vgetm", "copya", "copyc", "venum"}
UpKinds == {"uctor", "uctorl", "uasg", "uasgl", "copya", "movea", "copyc", "movec", "visit", "cvisit", "uset", "unull"}
Kinds(s) == CASE s.t = "opt" -> OptKinds [] s.t = "oref" -> RefKinds [] s.t = "exp" -> ExpKinds [] s.t = "expv" -> ExpvKinds
   [] s.t = "cexp" -> CexpKinds [] s.t = "cexpv" -> CexpvKinds \ {"asgv"} [] s.t = "take" -> TakeKinds [] s.t = "val" -> ValKinds [] s.t = "up" -> UpKinds
I == 1..2
Dead(x) == x = <<1, 0, 0>>
VV(s) == IF IsVoid(s) THEN {0} ELSE Vals
\* exceptions a checked_expected_t admits
Adm(s) == IF IsChk(s) THEN {1, 2} ELSE Excs
Ops(s, k) ==
  CASE k \in {"ctorv", "ctorvm", "ctorl", "asgv", "asgvm", "asgl", "emplace", "setvm"} -> {<<k, i, v>> : i \in I, v \in VV(s)}
    [] k = "setv" -> IF s.t \in {"exp", "expv", "cexpv"} THEN {<<k, i, v>> : i \in I, v \in VV(s)} ELSE IF s.t = "take" THEN {<<k, i, v>> : i \in I, v \in Vals}
                     ELSE {o \in {<<k, i, v>> : i \in I, v \in Vals} : s.o[o[2]] # <<>>}
    [] k \in {"swap"} -> {<<k, 1, 2>>}
    [] k \in {"copya", "movea"} -> {o \in {<<k, i, j>> : i \in I, j \in I} : (k = "copya" \/ o[2] # o[3])}
    [] k \in {"copyc", "movec"} -> {<<k, 1, 2>>, <<k, 2, 1>>}
    [] k \in {"get", "rget"} -> {<<k, i, 0>> : i \in I}
    [] k = "getm" -> {o \in {<<k, i, 0>> : i \in I} : s.o[o[2]] # <<>>}
    [] k = "cmpv" -> {<<k, i, v>> : i \in I, v \in Vals}
    [] k \in {"cmp", "tcmp"} -> {<<k, i, j>> : i \in I, j \in I}
    [] k = "bind" -> {<<k, i, c>> : i \in I, c \in 1..2}
    [] k = "rset" -> {o \in {<<k, i, v>> : i \in I, v \in Vals} : s.o[o[2]] # <<>>}
    [] k \in {"setx", "excfreep"} -> {<<k, i, e>> : i \in I, e \in Excs}
    [] k = "asgx" -> {<<k, i, e>> : i \in I, e \in (IF s.t = "cexp" THEN {1, 2} ELSE Excs)}
    [] k \in {"ctorx", "ctorcur", "setcur", "excfree"} -> {<<k, i, e>> : i \in I, e \in Excs}
    [] k = "ctorxtag" -> {<<k, i, e>> : i \in I, e \in Adm(s)}
    [] k \in {"code", "ctorcode", "codefree", "codefreer", "codefn"} -> {<<k, i, <<2, v>>>> : i \in I, v \in VV(s)} \cup {<<k, i, <<1, e>>>> : i \in I, e \in Excs}
    [] k \in {"eget", "conv"} -> {o \in {<<k, i, 0>> : i \in I} : s.o[o[2]][1] # 0 /\ ~Dead(s.o[o[2]])}
    [] k \in {"egetm"} -> {o \in {<<k, i, 0>> : i \in I} : s.o[o[2]][1] # 0 /\ ~Dead(s.o[o[2]])}
    [] k = "esetref" -> {o \in {<<k, i, v>> : i \in I, v \in Vals} : s.o[o[2]][1] = 2}
    [] k \in {"obs", "throwif"} -> {o \in {<<k, i, 0>> : i \in I} : ~Dead(s.o[o[2]])}
    [] k = "eq" -> {o \in {<<k, i, j>> : i \in I, j \in I} : ~(s.o[o[2]][1] = 1 /\ s.o[o[3]][1] = 1 /\ (s.o[o[2]][3] = 1 \/ s.o[o[3]][3] = 1) /\ o[2] # o[3])}
    [] k \in {"vctor", "vctorl", "vinplace", "vasg", "vasgl", "venum"} -> {<<k, i, v>> : i \in I, v \in Vals \cup {0, -2}}
    [] k \in {"uctor", "uctorl", "uasg", "uasgl"} -> {<<k, i, w, v>> : i \in I, w \in 0..1, v \in Vals}
    [] k = "uset" -> {o \in {<<k, i, v>> : i \in I, v \in Vals} : s.o[o[2]] # <<2>>}
    [] k = "tfree" -> {<<k, v, 0>> : v \in Vals}
    [] OTHER -> {<<k, i, 0>> : i \in I}

\* the value left behind in an object that was moved from
MovedFrom(s, x) ==
  CASE s.t \in {"opt", "oref"} -> IF x = <<>> THEN x ELSE <<Moved>>
    [] s.t = "exp" -> IF x[1] = 2 THEN <<2, Moved>> ELSE IF x[1] = 1 THEN <<1, 0, 0>> ELSE x
    [] s.t = "expv" -> IF x[1] = 1 THEN <<1, 0, 0>> ELSE x
    [] s.t = "cexp" -> IF x[1] = 2 THEN <<2, Moved>> ELSE <<0>>
    [] s.t = "cexpv" -> <<0>>
    [] s.t = "take" -> <<0>>
    [] s.t = "up" -> IF x = <<2>> THEN x ELSE <<x[1], Moved>>
    [] OTHER -> x
Six(c) == <<B(c = 0), B(c # 0), B(c < 0), B(c <= 0), B(c > 0), B(c >= 0)>>
Three(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
\* an empty optional orders before every value
Cmp(a, b) == IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1) ELSE IF b = <<>> THEN 1 ELSE Three(a[1], b[1])
Deref(s, x) == IF s.t = "oref" /\ x # <<>> THEN <<s.cells[x[1]]>> ELSE x
\* what an exception or value source yields
Src(x) == IF x[1] = 1 THEN <<1, x[2], 1>> ELSE x
Valid(v) == v \in 1..9
Step(s, o) ==
  LET k == o[1]
      i == o[2]
      set(x, r) == [s |-> [s EXCEPT !.o[i] = x], r |-> r]
      same(r) == [s |-> s, r |-> r]
      x == s.o[i]
      y == s.o[o[3]]
      val(v) == IF s.t \in {"exp", "expv", "cexp", "cexpv"} THEN <<2, v>> ELSE <<v>>
      \* an exception that a checked_expected_t does not admit is not stored but thrown
      exc(e, fresh) == IF IsChk(s) /\ e \notin Adm(s) THEN same(<<-1>>) ELSE set(<<1, e, fresh>>, <<0>>) IN
  CASE k \in {"ctorv", "ctorvm", "ctorl", "asgv", "asgvm", "asgl", "setv", "setvm"} ->
         IF s.t = "opt" /\ k = "setv" THEN set(<<o[3]>>, <<>>) ELSE set(val(o[3]), <<>>)
    [] k = "emplace" -> set(<<o[3]>>, <<o[3]>>)
    [] k = "emplace0" -> set(<<0>>, <<0>>)
    [] k \in {"ctorn", "asgn", "reset"} -> set(<<>>, <<>>)
    [] k = "clear" -> set(<<0>>, <<>>)
    [] k = "swap" -> [s |-> [s EXCEPT !.o = <<s.o[2], s.o[1]>>], r |-> <<>>]
    [] k \in {"copya", "copyc"} -> set(y, <<>>)
    [] k \in {"movea", "movec"} -> [s |-> [s EXCEPT !.o[i] = y, !.o[o[3]] = MovedFrom(s, y)], r |-> <<>>]
    [] k = "get" -> same(IF x = <<>> THEN <<0, -1, -1>> ELSE <<1, x[1], x[1], x[1], x[1], x[1], x[1]>>)
    [] k = "getm" -> set(<<Moved>>, <<x[1]>>)
    [] k = "cmp" -> same(Six(Cmp(Deref(s, x), Deref(s, y))))
    [] k = "cmpn" -> same(Six(Cmp(x, <<>>)) \o Six(Cmp(<<>>, x)))
    [] k = "cmpv" -> same(Six(Cmp(x, <<o[3]>>)) \o Six(Cmp(<<o[3]>>, x)))
    [] k = "bind" -> set(<<o[3]>>, <<>>)
    [] k = "rget" -> same(IF x = <<>> THEN <<0, -1, -1>> ELSE <<1, x[1], s.cells[x[1]], s.cells[x[1]], s.cells[x[1]], s.cells[x[1]]>>)
    [] k = "rset" -> [s |-> [s EXCEPT !.cells[x[1]] = o[3]], r |-> <<>>]
    [] k \in {"setx", "asgx", "excfreep"} -> exc(o[3], 0)
    [] k = "ctorx" -> exc(o[3], 0)
    [] k \in {"ctorcur", "setcur", "excfree"} -> exc(o[3], 0)
    [] k = "ctorxtag" -> exc(o[3], 1)
    [] k \in {"code", "ctorcode", "codefree", "codefreer", "codefn"} -> IF o[3][1] = 2 THEN set(<<2, o[3][2]>>, <<0, 1>>)
           ELSE LET z == exc(o[3][2], 1) IN [z EXCEPT !.r = @ \o <<1>>]
    [] k \in {"eget", "conv"} -> same(IF x[1] = 2 THEN <<2, x[2]>> ELSE <<1, x[2]>>)
    [] k = "egetm" -> IF x[1] = 2 THEN set(<<2, Moved>>, <<2, x[2]>>) ELSE same(<<1, x[2]>>)
    [] k = "esetref" -> set(<<2, o[3]>>, <<>>)
    [] k = "obs" -> same(<<B(x[1] = 2), B(x[1] = 1), B(x[1] = 0), B(x[1] # 0), IF x[1] = 1 THEN x[2] ELSE 0>>)
    [] k = "throwif" -> same(IF x[1] = 1 THEN <<x[2], x[2]>> ELSE <<0>>)
    [] k = "eq" -> same(<<B(x = y), B(x # y)>>)
    [] k = "tget" -> same(Rep(4, x[1]))
    [] k \in {"tgetm", "tderefm"} -> set(<<0>>, <<x[1]>>)
    [] k = "selfmove" -> same(<<>>)
    [] k = "treset" -> set(<<0>>, <<>>)
    [] k = "tcmp" -> same(Six(Three(x[1], y[1])))
    [] k = "tfree" -> same(<<i, 0>>)
    [] k \in {"vctor", "vctorl", "vinplace", "vasg", "vasgl"} -> IF Valid(o[3]) THEN set(<<o[3]>>, <<0>>) ELSE same(<<-1>>)
    [] k = "venum" -> same(IF Valid(o[3]) THEN <<o[3]>> ELSE <<-1>>)
    [] k = "vget" -> same(Rep(4, x[1]))
    [] k = "vgetm" -> set(<<Moved>>, <<x[1]>>)
    [] k \in {"uctor", "uctorl", "uasg", "uasgl"} -> set(<<o[3], o[4]>>, <<>>)
    [] k \in {"visit", "cvisit"} -> same(IF x = <<2>> THEN <<2, -1>> ELSE <<x[1], x[1], x[2]>>)
    [] k = "uset" -> set(<<x[1], o[3]>>, <<>>)
    [] k = "unull" -> set(<<2>>, <<>>)
Expect(s, o) == Step(s, o).r
Post(s, o, r) == IF r = Expect(s, o) THEN {Step(s, o).s} ELSE {}
=============================================================================
