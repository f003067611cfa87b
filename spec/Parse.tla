------------------------------- MODULE Parse --------------------------------
(***************************************************************************)
(* Text parsing helpers. A text is a sequence of character codes. Most      *)
(* operations run one helper on every text over an alphabet up to a length  *)
(* (or on given texts) and return what it gave for each, ended by -9:       *)
(* positions, character codes, the decimal digits of a number, or -1 for a  *)
(* text that is refused. There is no state.                                 *)
(***************************************************************************)
EXTENDS Util, TLC
CONSTANTS Grp, Configs

CInit(c) == [n |-> 0]
Inv(s) == s.n = 0

(* texts of one operation: shorter ones first, then in the order of the alphabet *)
RECURSIVE TextRow(_, _)
TextRow(n, a) == IF n = 0 THEN << <<>> >>
                 ELSE LET q == TextRow(n - 1, a) k == Len(a) IN [i \in 1..(k * Len(q)) |-> Append(q[((i - 1) \div k) + 1], a[((i - 1) % k) + 1])]
RECURSIVE Texts(_, _)
Texts(n, a) == IF n = 0 THEN TextRow(0, a) ELSE Texts(n - 1, a) \o TextRow(n, a)
RECURSIVE Emit(_)
Emit(rows) == IF rows = <<>> THEN <<>> ELSE IF Len(rows) = 1 THEN Append(rows[1], -9)
              ELSE LET m == Len(rows) \div 2 IN Emit(SubSeq(rows, 1, m)) \o Emit(SubSeq(rows, m + 1, Len(rows)))

(* characters *)
Tab == 9 LF == 10 CR == 13 SP == 32 DQ == 34 COMMA == 44 MINUS == 45 DOT == 46 EQ == 61 BS == 92
LA == 97 LB == 98 D(i) == 48 + i
Digit(c) == c \in 48..57
Alpha(c) == c \in 65..90 \/ c \in 97..122
Hex(c) == Digit(c) \/ c \in 65..70 \/ c \in 97..102
Blanks == (9..13) \cup {32, 133, 160, 5760} \cup (8192..8202) \cup {8232, 8233, 8239, 8287, 12288}
Blank(c) == c \in Blanks
(* first 0-based position with the property, else the length *)
PosF(q, f(_)) == LET S == {i \in 1..Len(q) : f(q[i])} IN IF S = {} THEN Len(q) ELSE MinS(S) - 1
EndF(q, f(_)) == LET S == {i \in 1..Len(q) : f(q[i])} IN IF S = {} THEN 0 ELSE MaxS(S)
Rng(a, b) == IF a < b THEN <<a, b>> ELSE <<-7>>
Fnd(n, p) == <<0, p, B(p < n)>>
No == <<-1>>
Vals(p) == CASE p = 1 -> {LA} [] p = 2 -> {LA, D(1)} [] OTHER -> {LA, D(1), SP}

(* decimal numbers *)
AllDigits(q) == \A i \in 1..Len(q) : Digit(q[i])
RECURSIVE Strip(_)
Strip(q) == IF Len(q) > 1 /\ q[1] = 48 THEN Strip(Tail(q)) ELSE q
DecLe(a, b) == LET x == Strip(a) y == Strip(b) IN Len(x) < Len(y) \/ (Len(x) = Len(y) /\ ~LexLt(y, x))
Txt(q) == [i \in 1..Len(q) |-> 48 + q[i]]
\* greatest magnitude of a positive and of a negative value of type w (bits) and sign
MaxOf(w, sg) ==
  CASE w = 8 -> IF sg = 1 THEN Txt(<<1,2,7>>) ELSE Txt(<<2,5,5>>)
    [] w = 16 -> IF sg = 1 THEN Txt(<<3,2,7,6,7>>) ELSE Txt(<<6,5,5,3,5>>)
    [] w = 32 -> IF sg = 1 THEN Txt(<<2,1,4,7,4,8,3,6,4,7>>) ELSE Txt(<<4,2,9,4,9,6,7,2,9,5>>)
    [] OTHER -> IF sg = 1 THEN Txt(<<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>) ELSE Txt(<<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>)
MinOf(w, sg) ==
  CASE sg = 0 -> Txt(<<0>>)
    [] OTHER -> LET m == MaxOf(w, 1) IN [m EXCEPT ![Len(m)] = @ + 1]
Digits10(w, sg) == CASE w = 8 -> 2 [] w = 16 -> 4 [] w = 32 -> 9 [] OTHER -> IF sg = 1 THEN 18 ELSE 19
Signed(neg, d) == IF neg /\ Strip(d) # Txt(<<0>>) THEN <<MINUS>> \o Strip(d) ELSE Strip(d)
Fits(w, sg, neg, d) == IF neg THEN DecLe(d, MinOf(w, sg)) ELSE DecLe(d, MaxOf(w, sg))
Neg(q) == q # <<>> /\ q[1] = MINUS
Body(q) == IF Neg(q) THEN Tail(q) ELSE q
\* at most as many digits as any value of the type may have
ParseU(q, w, sg) == IF q = <<>> \/ ~AllDigits(q) \/ Len(q) > Digits10(w, sg) THEN No ELSE Strip(q)
ParseI(q, w, sg) == LET d == Body(q) IN
  IF (Neg(q) /\ sg = 0) \/ d = <<>> \/ ~AllDigits(d) \/ Len(d) > Digits10(w, sg) THEN No ELSE Signed(Neg(q), d)
\* exactly the values of the type
ToInt(q, w, sg) == LET d == Body(q) IN
  IF (Neg(q) /\ sg = 0) \/ d = <<>> \/ ~AllDigits(d) \/ ~Fits(w, sg, Neg(q), d) THEN No ELSE Signed(Neg(q), d)
\* the longest number at the front
FromChars(q, w, sg) == LET n == sg = 1 /\ Neg(q) r == IF n THEN Tail(q) ELSE q d == Take(r, PosF(r, LAMBDA c : ~Digit(c))) IN
  IF d = <<>> \/ ~Fits(w, sg, n, d) THEN No ELSE Signed(n, d)

(* ranges *)
RECURSIVE EndsAt(_, _, _)
EndsAt(n, from, S) == \* ends of the parts from 0-based position from on; S: positions of the dividers
  LET R == {i \in S : i >= from} IN
  IF R # {} THEN <<MinS(R)>> \o EndsAt(n, MinS(R) + 1, S) ELSE IF from < n THEN <<n>> ELSE <<>>
Ends(q, f(_)) == EndsAt(Len(q), 0, {i \in 0..(Len(q) - 1) : f(q[i + 1])})
Occ(q, d) == LET S == {i \in 0..(Len(q) - Len(d)) : SubSeq(q, i + 1, i + Len(d)) = d} IN IF S = {} THEN Len(q) ELSE MinS(S)
FromTo(q, f(_), g(_), thr) ==
  LET a == PosF(q, f) b == a + PosF(Drop(q, a), g) n == Len(q) IN
  IF a = n \/ (thr = 1 /\ b = n) THEN No ELSE <<a, b, B(a < b)>>
TrimL(q) == Drop(q, PosF(q, LAMBDA c : ~Blank(c)))
TrimR(q) == Take(q, EndF(q, LAMBDA c : ~Blank(c)))
Number(q) ==
  LET a == PosF(q, LAMBDA c : c = MINUS \/ Digit(c))
      r == Drop(q, a + 1)
      bad == {i \in 1..Len(r) : ~Digit(r[i]) /\ (r[i] # DOT \/ \E j \in 1..(i - 1) : r[j] = DOT)}
      m == IF bad = {} THEN Len(r) ELSE MinS(bad) - 1 IN
  IF a = Len(q) THEN No ELSE <<a, a + 1 + m, 1>>
Literal(q) ==
  LET a == PosF(q, LAMBDA c : ~Blank(c))
      S == {i \in (a + 2)..Len(q) : q[i] = DQ /\ q[i - 1] # BS} IN
  IF a = Len(q) THEN No ELSE IF q[a + 1] # DQ \/ S = {} THEN No ELSE <<a + 1, MinS(S) - 1, 1>>
CrLf(q, m) == [i \in 1..Len(q) |-> B(i >= 2 * m /\ \A j \in 1..m : q[i - 2 * j + 1] = CR /\ q[i - 2 * j + 2] = LF)]

NRange == 27
Range(k, p, q) ==
  LET n == Len(q) IN
  CASE k = 1 -> Fnd(n, PosF(q, Digit))
    [] k = 2 -> IF p = 1 /\ PosF(q, Digit) = n THEN No ELSE Fnd(n, PosF(q, Digit))
    [] k = 3 -> Fnd(n, PosF(q, LAMBDA c : ~Digit(c)))
    [] k = 4 -> Fnd(n, PosF(q, LAMBDA c : c \in Vals(p)))
    [] k = 5 -> Fnd(n, PosF(q, LAMBDA c : c \in Vals(2)))
    [] k = 6 -> LET a == PosF(q, LAMBDA c : ~Blank(c)) IN Rng(a, n) \o <<B(a < n)>>
    [] k = 7 -> Rng(PosF(q, LAMBDA c : ~Blank(c)), n)
    [] k = 8 -> Rng(0, EndF(q, LAMBDA c : ~Blank(c)))
    [] k = 9 -> Rng(PosF(q, LAMBDA c : ~Blank(c)), EndF(q, LAMBDA c : ~Blank(c)))
    [] k = 10 -> FromTo(q, LAMBDA c : c = LA, LAMBDA c : c = D(1), p)
    [] k = 11 -> FromTo(q, LAMBDA c : c = LA, Digit, p)
    [] k = 12 -> Ends(q, LAMBDA c : c \in Vals(p))
    [] k = 13 -> Ends(q, Digit)
    [] k = 14 -> Fnd(n, Occ(q, <<LA, D(1)>>))
    [] k = 15 -> <<B(IsPrefixOf(SubSeq(<<LA, D(1), LA>>, 1, p), q))>>
    [] k = 16 -> LET S == {i \in 1..n : q[i] = LA} IN <<0, IF S = {} THEN n ELSE MaxS(S) - 1, B(S # {})>>
    [] k = 17 -> Fnd(n, PosF(q, LAMBDA c : c \in Vals(p)))
    [] k = 18 -> CrLf(q, p)
    [] k = 19 -> Number(q)
    [] k = 20 -> Literal(q)
    [] k = 21 -> <<PosF(q, LAMBDA c : c = LA)>>
    [] k = 22 -> <<PosF(q, Digit)>>
    [] k = 23 -> TrimL(q)
    [] k = 24 -> TrimR(q)
    [] k = 25 -> TrimL(TrimR(q))
    [] k = 26 -> IF n = 0 THEN No ELSE <<0>>
    [] OTHER -> IF n # 0 THEN No ELSE <<0>>
RangeA(k) == CASE k \in {6, 7, 8, 9, 23, 24, 25} -> <<SP, LA, Tab, D(1)>>
               [] k = 18 -> <<CR, LF, LA>>
               [] k = 19 -> <<MINUS, D(1), DOT, LA>>
               [] k = 20 -> <<DQ, BS, LA, SP>>
               [] k \in {26, 27} -> <<LA>>
               [] OTHER -> <<LA, D(1), SP>>
RangeP(k) == CASE k \in {2, 10, 11} -> {0, 1} [] k \in {4, 5, 12, 17} -> {1, 2, 3} [] k = 14 -> {0, 1} [] k = 15 -> {0, 1, 2, 3} [] k = 18 -> {1, 2, 3}
               [] k \in 21..25 -> {0, 1, 2, 3} [] OTHER -> {0}
RangeL(k) == IF k = 18 THEN 7 ELSE 5

(* classes of characters *)
Wide == {0, 1, 8, 9, 13, 14, 31, 32, 33, 132, 133, 134, 159, 160, 161, 305, 353, 5759, 5760, 5761, 8191, 8192, 8196, 8202, 8203, 8231, 8232, 8233, 8234,
         8238, 8239, 8240, 8286, 8287, 8288, 12287, 12288, 12289, 65, 90, 97, 122, 48, 57, 34, 92, 65328, 65345}
Codes(ct) == IF ct = 0 THEN [i \in 1..128 |-> i - 1] ELSE SetSeq(Wide)
NClass == 26
Class(k, c) ==
  CASE k = 1 -> Alpha(c)
    [] k = 2 -> Digit(c)
    [] k = 3 -> Hex(c)
    [] k = 4 -> Alpha(c) \/ Digit(c)
    [] k = 5 -> Blank(c)
    [] k = 6 -> ~Blank(c)
    [] k = 7 -> c = BS
    [] k = 8 -> c = DQ
    [] k = 9 -> c = SP
    [] k = 10 -> c # SP
    [] k = 11 -> c = LF
    [] k = 12 -> TRUE
    [] k = 13 -> FALSE
    [] k \in {14, 15, 16} -> c \in {LA, D(1)}
    [] k = 17 -> c \in {LA, D(1), SP}
    [] k = 18 -> c = LA
    [] k = 19 -> c \in {LA, D(1), SP}
    [] k = 20 -> c \in 50..100
    [] k = 21 -> ~Digit(c)
    [] k = 22 -> c \in {LA, D(1), SP}
    [] k = 23 -> Alpha(c)
    [] k = 24 -> Alpha(c) \/ Digit(c)
    [] k = 25 -> Alpha(c) \/ Digit(c) \/ c = SP
    [] OTHER -> c \in {LA, D(1), SP}
(* checks that refuse: expect, expect_true, assert_equal, assert_not_equal *)
Asrt(k, c) == CASE k = 1 -> c = LA [] k = 2 -> c \in {LA, D(1), SP} [] k = 3 -> Digit(c) [] k = 4 -> Digit(c) \/ Alpha(c) [] k = 5 -> c = LA [] OTHER -> c # LA

(* conversions of numbers; how: 1 parse_unsigned_int of a range, 2 of a C string, 3 of a view, 4 parse_int of a range, 5 of a view,
   6 parse_to, 7 from_string *)
Num(how, w, sg, q) ==
  CASE how \in 1..3 -> ParseU(q, w, sg)
    [] how \in 4..5 -> ParseI(q, w, sg)
    [] how = 6 -> ToInt(q, w, sg)
    [] OTHER -> FromChars(q, w, sg)
Types == {<<w, sg>> : w \in {8, 16, 32, 64}, sg \in {0, 1}}
\* decimal text plus one
RECURSIVE Inc(_)
Inc(q) == IF q = <<>> THEN <<49>> ELSE IF q[Len(q)] = 57 THEN Append(Inc(SubSeq(q, 1, Len(q) - 1)), 48) ELSE [q EXCEPT ![Len(q)] = @ + 1]
\* decimal text less one, of a number above zero whose last digit is not 0
Dec(q) == [q EXCEPT ![Len(q)] = @ - 1]
Border(w) == {MaxOf(w, 0), MaxOf(w, 1), Inc(MaxOf(w, 0)), Inc(MaxOf(w, 1)), Inc(Inc(MaxOf(w, 1))), Dec(MaxOf(w, 0)), Dec(MaxOf(w, 1)),
            Rep(Digits10(w, 0), 57), Rep(Digits10(w, 1), 57), Rep(Digits10(w, 0), 57) \o <<48>>, Rep(Digits10(w, 1) + 1, 49), Rep(Digits10(w, 0) + 1, 49),
            Append(MaxOf(w, 0), 48), Append(MaxOf(w, 1), 48), MaxOf(w, 1) \o MaxOf(w, 1)}
BorderTexts == LET e == UNION {Border(w) : w \in {8, 16, 32, 64}} IN
  e \cup {<<MINUS>> \o x : x \in e} \cup {<<48>> \o x : x \in e} \cup {<<MINUS, 48, 48>> \o x : x \in e} \cup {Append(x, LA) : x \in Border(8)} \cup {Append(x, SP) : x \in Border(32)}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

(* fields of parse_to *)
Quoted(q) == \* the character after the opening quote always belongs to the contents
  LET S == {i \in 3..Len(q) : q[i] = DQ /\ q[i - 1] # BS} IN
  IF Len(q) <= 2 THEN No ELSE IF q[1] # DQ \/ S = {} THEN No ELSE SubSeq(q, 2, MinS(S) - 1)
\* t: 1 signed 8 bit, 2 unsigned 8 bit, 3 char, 4 unquoted, 5 quoted, 6 int
Field(t, q) ==
  CASE t = 1 -> ToInt(q, 8, 1) [] t = 2 -> ToInt(q, 8, 0) [] t = 6 -> ToInt(q, 32, 1)
    [] t = 3 -> IF q = <<>> THEN No ELSE <<q[1]>>
    [] t = 4 -> IF q = <<>> THEN No ELSE q
    [] OTHER -> Quoted(q)
\* sp: 1 one comma, 2 two commas, 3 blanks merged, 4 every blank, 5 one space
Delim(sp) == CASE sp = 1 -> <<COMMA>> [] sp = 2 -> <<COMMA, COMMA>> [] OTHER -> <<SP>>
RECURSIVE Fields(_, _, _)
Fields(n, sp, q) == \* the first n fields; missing ones are empty
  IF n = 0 THEN <<>>
  ELSE LET p == IF sp \in {3, 4} THEN PosF(q, Blank) ELSE Occ(q, Delim(sp))
           e == IF sp = 3 THEN p + PosF(Drop(q, p), LAMBDA c : ~Blank(c)) ELSE IF sp = 4 THEN p + 1 ELSE p + Len(Delim(sp)) IN
       <<Take(q, p)>> \o Fields(n - 1, sp, Drop(q, Min(e, Len(q))))
ParseTo(ts, sp, q) ==
  LET fs == Fields(Len(ts), sp, q) v == [i \in 1..Len(ts) |-> Field(ts[i], fs[i])] IN
  IF \E i \in 1..Len(ts) : v[i] = No THEN No ELSE Flat([i \in 1..Len(ts) |-> Append(v[i], -8)])
\* lists of types the driver has
TypeLists == << <<4, 4, 4>>, <<1, 2>>, <<3, 4>>, <<6>>, <<5, 6>>, <<6, 6, 6>> >>
TLAlpha(i, sp) == LET d == IF sp \in {1, 2} THEN COMMA ELSE SP IN
  CASE i = 1 -> IF sp \in {3, 4} THEN <<LA, SP, Tab>> ELSE <<LA, d, LB>>
    [] i = 2 -> <<D(1), MINUS, d, D(2)>>
    [] i = 3 -> <<LA, d, D(1)>>
    [] i = 4 -> <<D(1), MINUS, LA, d>>
    [] i = 5 -> <<DQ, D(1), d, BS>>
    [] OTHER -> <<D(1), d, D(0)>>
TLLen(i) == IF i \in {1, 3, 6} THEN 6 ELSE 5
\* how the fields are taken: parse_to with a splitter or a string, apply_string, values_from_stream, construct_from (type list 6)
Vias(i, sp) == IF i \in {4, 6} THEN 1..7 ELSE 1..4

(* command line arguments *)
Unq(q) == IF q # <<>> /\ q[1] = DQ /\ q[Len(q)] = DQ THEN IF Len(q) >= 2 THEN SubSeq(q, 2, Len(q) - 1) ELSE <<>> ELSE q
Arg(q) == IF IsPrefixOf(<<MINUS, MINUS>>, q)
          THEN LET r == Drop(q, 2) p == PosF(r, LAMBDA c : c = EQ) IN [n |-> Take(r, p), v |-> Unq(Drop(r, Min(p + 1, Len(r))))]
          ELSE [n |-> <<>>, v |-> Unq(q)]
ArgRow(q) == LET a == Arg(q) IN a.n \o <<-8>> \o a.v

OptIx(as, f(_)) == LET p == PosF(as, f) IN IF p = Len(as) THEN -1 ELSE p
ArgsRow(qs) ==
  LET as == [i \in 1..Len(qs) |-> Arg(qs[i])] IN
  <<Len(as), B(as = <<>>), OptIx(as, LAMBDA a : a.n # <<>>), B(\E i \in 1..Len(as) : as[i].n # <<>>)>>
  \o Flat([j \in 1..3 |-> LET nm == <<<<>>, <<LA>>, <<LB>>>>[j] p == OptIx(as, LAMBDA a : a.n = nm) IN
            <<p>> \o (IF p < 0 THEN <<-6>> ELSE as[p + 1].v) \o <<-8>>])
ArgPool == {<<LA>>, <<MINUS, MINUS, LA>>, <<MINUS, MINUS, LB, EQ, LA>>, <<MINUS, MINUS, LA, EQ, DQ, LB, DQ>>, <<MINUS, MINUS>>}




Kinds(s) == CASE Grp = 0 -> {"range"} [] Grp = 1 -> {"class", "asrt"} [] Grp = 2 -> {"nums"} [] Grp = 3 -> {"numl"} [] Grp = 4 -> {"fields"} [] OTHER -> {"arg", "args", "quoted", "flt", "str"}
Ops(s, k) ==
  CASE k = "range" -> UNION {{<<k, i, p, RangeA(i), RangeL(i)>> : p \in RangeP(i)} : i \in 1..NRange}
    [] k = "class" -> {<<k, i, ct, Codes(ct)>> : i \in 1..NClass, ct \in 0..3}
    [] k = "asrt" -> {<<k, i, ct, Codes(ct)>> : i \in 1..6, ct \in {0, 2}}
    [] k = "nums" -> {<<k, h, t[1], t[2], <<D(1), D(0), MINUS, D(9), LA>>, IF t[1] = 16 THEN 5 ELSE 4>> : h \in 1..7, t \in {x \in Types : x[1] <= 16}}
    [] k = "numl" -> {<<k, h, t[1], t[2], SeqOf(BorderTexts)>> : h \in 1..7, t \in Types}
    [] k = "fields" -> UNION {{<<k, i, sp, via, TLAlpha(i, sp), TLLen(i)>> : via \in Vias(i, sp)} : i \in 1..Len(TypeLists), sp \in 1..5}
    [] k = "arg" -> {<<k, <<MINUS, EQ, DQ, LA>>, 6>>}
    [] k = "args" -> {<<k, q>> : q \in SeqsUpTo(ArgPool, 3)}
    [] k = "quoted" -> {<<k, h, <<DQ, BS, LA>>, 6>> : h \in 1..2}
    [] k = "flt" -> {<<k, h, v, sg>> : h \in 1..6, v \in {0, 1, 2, 3, 5, 14, 39}, sg \in {0, 1}}
    [] OTHER -> {<<k, h, <<LA, SP, DQ>>, 3>> : h \in 1..2}

Expect(s, o) ==
  LET On(q, f(_)) == Emit([i \in 1..Len(q) |-> f(q[i])]) IN
  CASE o[1] = "range" -> On(Texts(o[5], o[4]), LAMBDA q : Range(o[2], o[3], q))
    [] o[1] = "class" -> [i \in 1..Len(o[4]) |-> B(Class(o[2], o[4][i]))]
    [] o[1] = "asrt" -> [i \in 1..Len(o[4]) |-> B(Asrt(o[2], o[4][i]))]
    [] o[1] = "nums" -> On(Texts(o[6], o[5]), LAMBDA q : Num(o[2], o[3], o[4], q))
    [] o[1] = "numl" -> On(o[5], LAMBDA q : Num(o[2], o[3], o[4], q))
    [] o[1] = "fields" -> On(Texts(o[6], o[5]), LAMBDA q : ParseTo(TypeLists[o[2]], o[3], q))
    [] o[1] = "arg" -> On(Texts(o[3], o[2]), ArgRow)
    [] o[1] = "args" -> ArgsRow(o[2])
    [] o[1] = "quoted" -> On(Texts(o[4], o[3]), Quoted)
    [] o[1] = "flt" -> <<IF o[4] = 1 THEN -o[3] ELSE o[3]>>
    [] OTHER -> On(Texts(o[4], o[3]), LAMBDA q : q)
Step(s, o) == [s |-> s, r |-> Expect(s, o)]
Post(s, o, r) == IF r = Expect(s, o) THEN {s} ELSE {}
=============================================================================
