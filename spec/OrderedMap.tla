---------------------------- MODULE OrderedMap ----------------------------
(***************************************************************************)
(* ordered_map (t = "om") and fixed_lookup (t = "fl") as finite maps.      *)
(*                                                                         *)
(* om: s.m is the sequence of <<key, value>> in order of first insertion.  *)
(*     Two keys are the same key when the comparator orders neither before *)
(*     the other; the comparator of configuration d compares key \div d,   *)
(*     so with d = 2 the keys 0 and 1 are one key, and the key that was    *)
(*     inserted first is the one that stays.                               *)
(* fl: s.m is the sequence of <<key, value, index>>; the index a key gets  *)
(*     is any index that is not in use, and it never changes.  sl gives    *)
(*     the home slot of each key, which may not matter.                    *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Vals, RangeLens, Configs

CInit(c) == [t |-> c.t, n |-> c.n, d |-> c.d, sl |-> c.sl, m |-> <<>>]
Same(s, a, b) == (a \div s.d) = (b \div s.d)
Has(s, m, k) == \E i \in 1..Len(m) : Same(s, m[i][1], k)
At(s, m, k) == CHOOSE i \in 1..Len(m) : Same(s, m[i][1], k)
Nk(s) == Len(s.sl)
Keys(s) == 0..(Nk(s) - 1)
Inv(s) == /\ \A i, j \in 1..Len(s.m) : Same(s, s.m[i][1], s.m[j][1]) => i = j
          /\ s.t = "fl" => /\ Len(s.m) <= s.n
                           /\ \A i, j \in 1..Len(s.m) : s.m[i][3] = s.m[j][3] => i = j
                           /\ \A i \in 1..Len(s.m) : s.m[i][3] \in 0..(s.n - 1)
\* first insertion wins
RECURSIVE InsAll(_, _, _)
InsAll(s, m, es) == IF es = <<>> THEN m
                    ELSE InsAll(s, IF Has(s, m, es[1][1]) THEN m ELSE Append(m, es[1]), Tail(es))
Free(s) == (0..(s.n - 1)) \ {s.m[i][3] : i \in 1..Len(s.m)}

OmKinds == {"insv", "insp", "insb", "put", "idx", "at", "cat", "setat", "find", "setfind", "list", "rlist", "ends", "clear", "range", "copy"}
FlKinds == {"fins", "fput", "fidx", "fcidx", "fexists", "ffind", "fget", "fset", "fsize", "fcopy"}
Kinds(s) == IF s.t = "om" THEN OmKinds ELSE FlKinds
Ways == {"range", "rangecmp", "rangealloc", "ilist", "ilistcmp"}
Ops(s, k) ==
  CASE k \in {"insv", "insp", "insb", "put", "fins", "fput"} -> {<<k, x, v>> : x \in Keys(s), v \in Vals}
    [] k \in {"idx", "at", "cat", "find", "fidx", "fcidx", "fexists", "ffind"} -> {<<k, x, 0>> : x \in Keys(s)}
    [] k \in {"setat", "setfind"} -> {<<k, x, v>> : x \in Keys(s), v \in Vals}
    [] k = "fget" -> {<<k, s.m[i][1], 0>> : i \in 1..Len(s.m)}
    [] k = "fset" -> {<<k, s.m[i][1], v>> : i \in 1..Len(s.m), v \in Vals}
    [] k = "range" -> {<<k, w, ks>> : w \in Ways, ks \in UNION {SeqsN(Keys(s), l) : l \in RangeLens}}
    [] OTHER -> {<<k, 0, 0>>}
\* the value of the i'th element of a range
RangeEls(ks) == [i \in 1..Len(ks) |-> <<ks[i], i>>]
FlatM(m) == Flat([i \in 1..Len(m) |-> <<m[i][1], m[i][2]>>])
Step(s, o) ==
  LET k == o[1]
      x == o[2]
      in == k # "range" /\ Has(s, s.m, x)
      e == s.m[At(s, s.m, x)]
      i == At(s, s.m, x)
      app(v) == [s EXCEPT !.m = Append(@, <<x, v>>)]
      set(v) == [s EXCEPT !.m[i] = [@ EXCEPT ![2] = v]]
      full == Len(s.m) = s.n
      fapp(v) == [s EXCEPT !.m = Append(@, <<x, v, MinS(Free(s))>>)] IN
  CASE k \in {"insv", "insp", "insb"} -> IF in THEN [s |-> s, r |-> <<0, e[1], e[2]>>] ELSE [s |-> app(o[3]), r |-> <<1, x, o[3]>>]
    [] k = "put" -> [s |-> IF in THEN set(o[3]) ELSE app(o[3]), r |-> <<>>]
    [] k = "idx" -> [s |-> IF in THEN s ELSE app(0), r |-> <<IF in THEN e[2] ELSE 0>>]
    [] k \in {"at", "cat"} -> [s |-> s, r |-> IF in THEN <<e[2]>> ELSE <<-1>>]
    [] k = "setat" -> [s |-> IF in THEN set(o[3]) ELSE s, r |-> IF in THEN <<>> ELSE <<-1>>]
    [] k = "find" -> [s |-> s, r |-> IF in THEN <<i - 1, e[1], e[2], i - 1, e[1], e[2]>> ELSE <<Len(s.m), Len(s.m)>>]
    [] k = "setfind" -> [s |-> IF in THEN set(o[3]) ELSE s, r |-> IF in THEN <<>> ELSE <<-1>>]
    [] k = "list" -> [s |-> s, r |-> <<Len(s.m), B(s.m = <<>>)>> \o FlatM(s.m)]
    [] k = "rlist" -> [s |-> s, r |-> FlatM(Rev(s.m))]
    [] k = "ends" -> [s |-> s, r |-> IF s.m = <<>> THEN <<>> ELSE <<s.m[1][1], s.m[1][2], s.m[Len(s.m)][1], s.m[Len(s.m)][2]>>]
    [] k = "clear" -> [s |-> [s EXCEPT !.m = <<>>], r |-> <<>>]
    [] k = "range" -> [s |-> [s EXCEPT !.m = InsAll(s, <<>>, RangeEls(o[3]))], r |-> <<>>]
    [] k \in {"copy", "fcopy"} -> [s |-> s, r |-> <<>>]
    [] k = "fins" -> IF in THEN [s |-> set(o[3]), r |-> <<e[3]>>] ELSE IF full THEN [s |-> s, r |-> <<-1>>] ELSE [s |-> fapp(o[3]), r |-> <<MinS(Free(s))>>]
    [] k = "fput" -> IF in THEN [s |-> set(o[3]), r |-> <<e[3]>>] ELSE IF full THEN [s |-> s, r |-> <<-1>>] ELSE [s |-> fapp(o[3]), r |-> <<MinS(Free(s))>>]
    [] k = "fidx" -> IF in THEN [s |-> s, r |-> <<e[3], e[2]>>] ELSE IF full THEN [s |-> s, r |-> <<-1>>] ELSE [s |-> fapp(0), r |-> <<MinS(Free(s)), 0>>]
    [] k = "fcidx" -> [s |-> s, r |-> IF in THEN <<e[2]>> ELSE <<-1>>]
    [] k = "ffind" -> [s |-> s, r |-> IF in THEN <<e[3]>> ELSE <<-1>>]
    [] k = "fexists" -> [s |-> s, r |-> <<B(in)>>]
    [] k = "fget" -> [s |-> s, r |-> <<e[2], e[2]>>]
    [] k = "fset" -> [s |-> set(o[3]), r |-> <<>>]
    [] k = "fsize" -> [s |-> s, r |-> <<Len(s.m), s.n>>]
Expect(s, o) == Step(s, o).r
\* a new key of a fixed_lookup may be put at any unused index
NewIdx(s, o) == o[1] \in {"fins", "fput", "fidx"} /\ ~Has(s, s.m, o[2]) /\ Len(s.m) < s.n
Post(s, o, r) ==
  IF NewIdx(s, o) THEN
     IF /\ Len(r) = Len(Expect(s, o)) /\ r[1] \in Free(s) /\ Tail(r) = Tail(Expect(s, o))
     THEN {[Step(s, o).s EXCEPT !.m[Len(s.m) + 1] = [@ EXCEPT ![3] = r[1]]]} ELSE {}
  ELSE IF r = Expect(s, o) THEN {Step(s, o).s} ELSE {}
=============================================================================
