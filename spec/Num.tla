-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Integer and bit helpers. A value of a w bit type is the sequence of its *)
(* w/8 bytes, least significant first; arithmetic on such sequences is     *)
(* spelled out here, so the specification does not depend on the integers  *)
(* of TLC (32 bits) nor on those of the implementation.                    *)
(* There is no state to speak of: each operation is one call (or a row of  *)
(* calls that differ in the right operand).                                *)
(***************************************************************************)
EXTENDS Util, TLC, Bitwise
CONSTANTS Grp, Configs

---------------------------------------------------------------------------
(* numbers as bytes *)
Zb(n) == Rep(n, 0)
Fill(b, n) == Rep(n, b)
RECURSIVE Bytes(_, _)
Bytes(v, n) == IF n = 0 THEN <<>> ELSE <<v % 256>> \o Bytes(v \div 256, n - 1)
RECURSIVE AddR(_, _, _, _)
AddR(A, D, i, c) == IF i > Len(A) THEN <<>> ELSE LET t == A[i] + D[i] + c IN <<t % 256>> \o AddR(A, D, i + 1, t \div 256)
Add(A, D) == AddR(A, D, 1, 0)
NotB(A) == [i \in 1..Len(A) |-> 255 - A[i]]
Sub(A, D) == AddR(A, NotB(D), 1, 1)
Neg(A) == Sub(Zb(Len(A)), A)
MsbSet(A) == A[Len(A)] >= 128
Ext(A, sg, n) == IF Len(A) >= n THEN SubSeq(A, 1, n) ELSE A \o Fill(IF sg = 1 /\ MsbSet(A) THEN 255 ELSE 0, n - Len(A))
RECURSIVE LtFrom(_, _, _)
LtFrom(A, D, i) == IF i = 0 THEN FALSE ELSE IF A[i] # D[i] THEN A[i] < D[i] ELSE LtFrom(A, D, i - 1)
Ltu(A, D) == LtFrom(A, D, Len(A))
\* mathematical comparison of operands of any width and signedness
Lt(A, sa, D, sd) == LET x == Ext(A, sa, 9) y == Ext(D, sd, 9) IN
                    IF MsbSet(x) # MsbSet(y) THEN MsbSet(x) ELSE Ltu(x, y)
Eq(A, sa, D, sd) == Ext(A, sa, 9) = Ext(D, sd, 9)
Mask(lt, eq) == B(eq) + 2 * B(~eq) + 4 * B(lt) + 8 * B(~lt /\ ~eq) + 16 * B(lt \/ eq) + 32 * B(~lt)
CmpMask(A, sa, D, sd) == Mask(Lt(A, sa, D, sd), Eq(A, sa, D, sd))
RECURSIVE MulC(_, _, _, _)
MulC(A, D, k, c) == IF k > Len(A) THEN <<>>
                    ELSE LET t == SumSeq([i \in 1..k |-> A[i] * D[k + 1 - i]]) + c IN <<t % 256>> \o MulC(A, D, k + 1, t \div 256)
Mul(A, D) == MulC(A, D, 1, 0)
(* bits, least significant first *)
Bits(A) == [i \in 1..(8 * Len(A)) |-> (A[((i - 1) \div 8) + 1] \div Pow(2, (i - 1) % 8)) % 2]
RECURSIVE BitSum(_, _, _)
BitSum(q, i, k) == IF k = 8 THEN 0 ELSE q[i + k] * Pow(2, k) + BitSum(q, i, k + 1)
UnBits(q) == [i \in 1..(Len(q) \div 8) |-> BitSum(q, 8 * (i - 1) + 1, 0)]
Shl(A, n) == LET q == Bits(A) IN UnBits([i \in 1..Len(q) |-> IF i <= n THEN 0 ELSE q[i - n]])
Shr(A, n) == LET q == Bits(A) IN UnBits([i \in 1..Len(q) |-> IF i + n > Len(q) THEN 0 ELSE q[i + n]])
Rotl(A, n) == LET q == Bits(A) IN UnBits([i \in 1..Len(q) |-> q[((i - 1 + Len(q) - n) % Len(q)) + 1]])
Rotr(A, n) == LET q == Bits(A) IN UnBits([i \in 1..Len(q) |-> q[((i - 1 + n) % Len(q)) + 1]])
AndB(A, D) == [i \in 1..Len(A) |-> A[i] & D[i]]
OrB(A, D) == [i \in 1..Len(A) |-> A[i] | D[i]]
XorB(A, D) == [i \in 1..Len(A) |-> A[i] ^^ D[i]]
RECURSIVE DivR(_, _, _, _)
DivR(q, D, i, R) == \* q: dividend bits, i: next bit, R: remainder so far (one byte wider)
  IF i = 0 THEN <<>>
  ELSE LET R2 == AddR(R, R, 1, q[i]) IN IF Ltu(R2, D) THEN DivR(q, D, i - 1, R2) \o <<0>> ELSE DivR(q, D, i - 1, Sub(R2, D)) \o <<1>>
Div(A, D) == UnBits(DivR(Bits(A), D \o <<0>>, 8 * Len(A), Zb(Len(A) + 1)))
OneBit(k, n) == [i \in 1..n |-> IF (k \div 8) + 1 = i THEN Pow(2, k % 8) ELSE 0]
Ones(A) == SumSeq(Bits(A))
Top(A) == LET S == {i \in 1..(8 * Len(A)) : Bits(A)[i] = 1} IN IF S = {} THEN 0 ELSE MaxS(S)
Low(A) == LET S == {i \in 1..(8 * Len(A)) : Bits(A)[i] = 1} IN IF S = {} THEN 8 * Len(A) + 1 ELSE MinS(S)
RECURSIVE PowB(_, _)
PowB(A, e) == IF e = 0 THEN Bytes(1, Len(A)) ELSE Mul(A, PowB(A, e - 1))
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN Bytes(1, 8) ELSE Mul(Bytes(n, 8), Fact(n - 1))

(* boundary values of a type of w bits *)
RECURSIVE Around(_, _)
Around(ks, n) == IF ks = <<>> THEN <<>>
                 ELSE (IF Head(ks) < 8 * n THEN LET p == OneBit(Head(ks), n) IN <<p, Sub(p, Bytes(1, n)), Add(p, Bytes(1, n))>> ELSE <<>>) \o Around(Tail(ks), n)
Bnd(w) == LET n == w \div 8 IN
  [i \in 1..8 |-> Bytes(<<0, 1, 2, 3, 7, 100, 200, 254>>[i], n)] \o Around(<<7, 8, 15, 16, 31, 32, 63>>, n) \o <<Fill(255, n), Sub(Fill(255, n), Bytes(1, n)), [i \in 1..n |-> (17 * i + 4 * i * i + 165) % 256]>>
Bnd2(w) == LET n == w \div 8 IN
  <<Zb(n), Bytes(1, n), Bytes(7, n), Bytes(255, n), Fill(255, n), OneBit(w - 1, n), Sub(OneBit(w - 1, n), Bytes(1, n)), [i \in 1..n |-> (17 * i + 4 * i * i + 165) % 256], [i \in 1..n |-> (57 * i + 31) % 256]>>
Cut2(q, n) == [i \in 1..(Len(q) \div n) |-> SubSeq(q, n * (i - 1) + 1, n * i)]
W == {8, 16, 32, 64}

---------------------------------------------------------------------------
CInit(c) == [n |-> 0]
Inv(s) == s.n = 0
Kinds(s) == CASE Grp = 0 -> {"cmprow", "cmp", "inr", "sgn"}
              [] Grp = 1 -> {"u2", "u2row", "usub", "u1", "urot", "ubuf", "ulit", "umask"}
              [] Grp = 2 -> {"nat", "natset", "nat1", "natrow"}
              [] Grp = 3 -> {"mask", "bits", "areset", "endian", "rev", "abs", "powi", "fact", "tab", "rnd", "rndby", "bitfn", "rup", "cdig", "conv", "csign", "bset"}
              [] Grp = 4 -> {"flt", "fset", "fsign", "fpow2", "fexp", "ulp", "dpow"}
Rels == {"==", "!=", "<", ">", "<=", ">="}
Asg == {"+=", "-=", "*=", "/=", "&=", "|=", "^="}
Arith == {"+", "-", "*", "/", "&", "|", "^", "==", "!=", "<", ">", "<=", ">=", "+=", "-=", "*=", "/=", "&=", "|=", "^="}
FB == {Fill(0, 4), OneBit(31, 4), Bytes(1, 4), <<255, 255, 127, 0>>, <<0, 0, 128, 0>>, <<0, 0, 128, 63>>, <<0, 0, 32, 65>>, <<219, 15, 73, 192>>, <<255, 255, 127, 127>>, <<0, 0, 128, 127>>, <<0, 0, 128, 255>>, <<1, 0, 128, 127>>, <<0, 0, 192, 255>>, <<1, 0, 0, 128>>}
DB == {Fill(0, 8), OneBit(63, 8), Bytes(1, 8), <<255, 255, 255, 255, 255, 255, 15, 0>>, <<0, 0, 0, 0, 0, 0, 16, 0>>, <<0, 0, 0, 0, 0, 0, 240, 63>>, <<0, 0, 0, 0, 0, 0, 36, 64>>, <<24, 45, 68, 84, 251, 33, 9, 192>>, <<255, 255, 255, 255, 255, 255, 239, 127>>,
       <<0, 0, 0, 0, 0, 0, 240, 127>>, <<0, 0, 0, 0, 0, 0, 240, 255>>, <<1, 0, 0, 0, 0, 0, 240, 127>>, <<0, 0, 0, 0, 0, 0, 248, 255>>, <<1, 0, 0, 0, 0, 0, 0, 128>>, <<0, 0, 0, 0, 1, 0, 0, 0>>, <<0, 0, 0, 0, 1, 0, 240, 127>>}
FOf(f) == IF f = 32 THEN FB ELSE DB
NatV == <<1, 2, 3, 5, 10, 11, 100, 127>>
TypeMax(w, sg) == IF sg = 1 THEN Sub(OneBit(w - 1, w \div 8), Bytes(1, w \div 8)) ELSE Fill(255, w \div 8)
TypeMin(w, sg) == IF sg = 1 THEN OneBit(w - 1, w \div 8) ELSE Zb(w \div 8)
Fits(A, sa, w, sg) == ~Lt(A, sa, TypeMin(w, sg), sg) /\ ~Lt(TypeMax(w, sg), sg, A, sa)
IsNat(A, sa) == Lt(Zb(1), 0, A, sa)
\* right operands for which the result of a natural_t<w, sl> operation is defined: no overflow
NatRhs(o, w, sl, a) == SelectSeq(NatV, LAMBDA v : CASE o \in {"+", "+="} -> w > 8 \/ o = "+" \/ a + v <= (IF sl = 1 THEN 127 ELSE 255)
                                                    [] o \in {"*", "*="} -> w > 8 \/ o = "*" \/ a * v <= (IF sl = 1 THEN 127 ELSE 255)
                                                    [] OTHER -> TRUE)
RupOk(A) == Top(A) < 8 * Len(A) \/ A = OneBit(8 * Len(A) - 1, Len(A))
\* not generated: plain integers that the chosen operator would first truncate
Meant(o, wl, rl, wr, rr) == /\ rl + rr < 2 /\ (rl = 0 \/ o \notin Asg)
                            /\ o \in Rels => (rl = 0 \/ wl <= wr \/ wl = 64) /\ (rr = 0 \/ wr <= wl \/ wr = 64)
                            /\ o \in {"/", "/="} => (rr = 0 \/ wr <= wl \/ (o = "/" /\ wl = 8 /\ wr = 64))
Ops(s, k) ==
  CASE k = "cmprow" -> {<<k, lib, sa, sb, a>> : lib \in 0..1, sa \in 0..1, sb \in 0..1, a \in 0..255}
    [] k = "cmp" -> {<<k, x[1], x[2], x[3], x[4], x[5], x[6], Flat(Bnd(x[5]))>> : x \in UNION {{<<lib, w, sa, A, wb, sb>> : lib \in 0..1, sa \in 0..1, A \in Ran(Bnd(w)), wb \in W, sb \in 0..1} : w \in W}}
    [] k = "inr" -> {<<k, wr, sr, w, sg, Flat(Bnd(w))>> : wr \in W, sr \in 0..1, w \in W, sg \in 0..1}
    [] k = "sgn" -> {<<k, lib, w, sg, Flat(Bnd(w))>> : lib \in 0..1, w \in W, sg \in 0..1}
    [] k = "u2" -> {<<k, x[1], x[2], x[3], x[4], x[5], x[6], Flat(IF x[1] \in {"/", "/="} THEN Tail(Bnd2(x[4])) ELSE Bnd2(x[4]))>> :
                     x \in {y \in UNION {{<<o, w, rl, wr, rr, A>> : o \in Arith, rl \in 0..1, wr \in W, rr \in 0..1, A \in Ran(Bnd2(w))} : w \in W} : Meant(y[1], y[2], y[3], y[4], y[5])}}
    [] k = "u2row" -> {<<k, o, a>> : o \in Arith, a \in 0..255}
    [] k = "usub" -> {<<k, x[1], x[2], x[3], x[4], x[5], x[6]>> : x \in UNION {{<<o, w, wr, rr, A, n>> : o \in {"<<", ">>", "<<=", ">>="}, wr \in W, rr \in 0..1, A \in {Fill(255, w \div 8), Bnd2(w)[8], Bnd2(w)[9]}, n \in {0, 1, 3, 7, 8, w \div 2, w - 1} \cap 0..(w - 1)} : w \in W}}
    [] k = "u1" -> UNION {{<<k, o, w, A>> : o \in {"~", "-", "+", "!", "++", "--", "p++", "p--"}, A \in Ran(Bnd(w))} : w \in W}
    [] k = "urot" -> UNION {{<<k, o, w, A, n>> : o \in {"rotl", "rotr", "rotlT", "rotrT"}, A \in Ran(Bnd2(w)), n \in {0, 1, 3, 7, 8, w \div 2, w - 1, w} \cap 0..w} : w \in W}
    [] k = "ubuf" -> {<<k, w, A>> : w \in W \ {8}, A \in {[i \in 1..8 |-> 20 * i + 90], Fill(255, 8), Fill(128, 8), [i \in 1..8 |-> i]}}
    [] k = "ulit" -> {<<k>>}
    [] k = "umask" -> {<<k, w>> : w \in W}
    [] k = "nat" -> {<<k, x[1], x[2], x[3], x[4], x[5], x[6], NatRhs(x[1], x[2], x[3], x[6])>> : x \in {y \in {"+", "-", "*", "/", "%", "+=", "-=", "*=", "/=", "%=", "cmp"} \X W \X {0, 1} \X W \X {0, 1} \X Ran(NatV) : TRUE}}
    [] k = "natrow" -> {<<k, o, sg, a>> : o \in {"-", "/", "%", "-=", "/=", "%="}, sg \in 0..1, a \in 1..127}
    [] k = "natset" -> UNION {{<<k, wn, sn, w, sg, how, A>> : wn \in W, sn \in 0..1, sg \in 0..1, how \in 0..1, A \in Ran(Bnd(w))} : w \in W}
    [] k = "nat1" -> {<<k, o, w, sg, a>> : o \in {"++", "--", "p++", "p--"}, w \in W, sg \in 0..1, a \in {1, 2, 3, 100, 126}}
    [] k = "mask" -> {<<k, m, w, n>> : m \in {"msb", "lsb"}, w \in W, n \in {0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65}}
    [] k = "bits" -> UNION {{<<k, f, w, sg, A, p>> : f \in {"set", "unset", "get"}, sg \in 0..1, A \in {Zb(w \div 8), Fill(255, w \div 8), Bnd2(w)[9]},
                              p \in {<<a>> : a \in {0, 1, 5, w \div 2, w - 1}} \cup {<<0, w - 1>>, <<w - 1, 3>>, <<2, 2>>, <<1, w \div 2, w - 2>>, <<w - 1, 0, 4>>}} : w \in W}
    [] k = "areset" -> {<<k, w, A, M>> : w \in W, A \in 0..15, M \in {<<a>> : a \in 0..7} \cup {<<a, c>> : a \in 0..4, c \in 0..4} \cup {<<1, 2, 8>>, <<4, 0, 2>>}}
    [] k = "endian" -> UNION {{<<k, f, w, sg, A>> : f \in {"le", "be", "net", "nle", "nbe"}, sg \in 0..1, A \in Ran(Bnd(w))} : w \in W}
    [] k = "rev" -> UNION {{<<k, w, A>> : A \in Ran(Bnd(w))} : w \in W \ {8}} \cup {<<k, 8, <<a>>>> : a \in 0..255}
    [] k = "abs" -> UNION {{<<k, w, sg, A>> : sg \in 0..1, A \in Ran(Bnd(w))} : w \in W} \cup {<<k, 8, sg, <<a>>>> : sg \in 0..1, a \in 0..255}
    [] k = "powi" -> ({<<k, lib, w, b, e>> : lib \in 0..2, w \in {32, 64}, b \in {-3, -2, -1, 1, 2, 3, 7, 10}, e \in 0..10} \ {<<k, lib, 32, 10, 10>> : lib \in 0..2}) \cup {<<k, lib, 64, 2, e>> : lib \in 0..2, e \in {31, 32, 33, 61, 62}}
                     \cup {<<k, lib, 64, 10, e>> : lib \in 0..2, e \in 11..18} \cup {<<k, lib, 64, -2, 63>> : lib \in 0..2} \cup {<<k, lib, 32, 2, 30>> : lib \in 0..2} \cup {<<k, lib, 64, 0, e>> : lib \in 0..2, e \in {1, 2, 5}}
    [] k = "fact" -> {<<k, w, n>> : w \in 0..1, n \in 0..20}
    [] k = "tab" -> {<<k, "pow2", n>> : n \in 0..63} \cup {<<k, "pow10", n>> : n \in 0..19} \cup {<<k, "pow10v", n>> : n \in 0..19}
    [] k = "rnd" -> {<<k, f, t, q>> : f \in {"round", "floor", "ceil"}, t \in 0..1, q \in -26..26}
    [] k = "rndby" -> {<<k, f, q, by>> : f \in {"round", "floor", "ceil"}, q \in -26..26, by \in {1, 2, 5, 10}}
    [] k = "bitfn" -> UNION {{<<k, f, w, A>> : f \in {"clz", "ctz"}, A \in Ran(Bnd(w)) \cup {OneBit(i, w \div 8) : i \in 0..(w - 1)}} : w \in {32, 64}}
                      \cup UNION {{<<k, f, w, A>> : f \in {"pop", "popS", "odd", "even", "oddS", "evenS"}, A \in Ran(Bnd(w))} : w \in W}
                      \cup {<<k, f, 128, A>> : f \in {"clz", "pop"}, A \in {Zb(16), Fill(255, 16), Bytes(9, 16)} \cup {OneBit(i, 16) : i \in {0, 31, 63, 64, 65, 100, 127}}}
    [] k = "rup" -> UNION {{<<k, w, A>> : A \in {x \in Ran(Bnd(w)) : RupOk(x)}} : w \in {32, 64}}
    [] k = "cdig" -> {<<k, PowB(Bytes(10, 8), n), d>> : n \in 0..19, d \in -1..1} \cup {<<k, A, 0>> : A \in Ran(Bnd(64))}
    [] k = "conv" -> UNION {{<<k, f, w, sg, A>> : f \in {"tou", "tos"}, sg \in 0..1, A \in Ran(Bnd(w))} : w \in W}
    [] k = "csign" -> {<<k, w, a, b>> : w \in {32, 64}, a \in {-100, -1, 0, 1, 7, 100}, b \in {-5, -1, 0, 1, 9}}
    [] k = "bset" -> UNION {{<<k, h, n, p>> : h \in 0..2, p \in {<<>>, <<0>>, <<0, 0>>, <<n - 1>>, <<n - 1, 0>>, <<n \div 2, n - 1, 0>>}} : n \in {1, 8, 70}}
    [] k = "flt" -> {<<k, f, fn, A>> : f \in {32, 64}, fn \in {"cls", "nan", "inf", "fin", "abs", "sig", "exp", "sqrtneg"}, A \in FB \cup DB} \cap {x \in {<<k, f, fn, A>> : f \in {32, 64}, fn \in {"cls", "nan", "inf", "fin", "abs", "sig", "exp", "sqrtneg"}, A \in FB \cup DB} : Len(x[4]) * 8 = x[2]}
    [] k = "fset" -> UNION {{<<k, f, fn, A, e>> : fn \in {"set", "adj"}, A \in {x \in FOf(f) : x # Fill(0, f \div 8)}, e \in {-3, -1, 0, 1, 5}} : f \in {32, 64}}
    [] k = "fsign" -> UNION {{<<k, f, A, D>> : A \in FOf(f), D \in FOf(f)} : f \in {32, 64}}
    [] k = "fpow2" -> {<<k, 32, e>> : e \in -152..130} \cup {<<k, 64, e>> : e \in (-1077..-1070) \cup (-1026..-1018) \cup (-70..70) \cup (1018..1026)}
    [] k = "fexp" -> {<<k, e, A>> : e \in {-3, 0, 1, 10}, A \in {<<0, 0, 0, 0, 0, 0, 240, 63>>, <<0, 0, 0, 0, 0, 0, 36, 64>>, <<24, 45, 68, 84, 251, 33, 9, 192>>}}
    [] k = "ulp" -> {<<k, A, d>> : A \in {Bytes(77, 8), <<0, 0, 0, 0, 0, 0, 240, 63>>, <<255, 255, 255, 255, 255, 255, 239, 63>>, <<24, 45, 68, 84, 251, 33, 9, 192>>}, d \in {-3, -1, 0, 1, 2}}
    [] k = "dpow" -> {<<k, "d2", e>> : e \in -300..300} \cup {<<k, "d10", e>> : e \in 0..18}

---------------------------------------------------------------------------
(* exponent and significand of a binary32 / binary64 pattern *)
SigBits(f) == IF f = 32 THEN 23 ELSE 52
Bias(f) == IF f = 32 THEN 127 ELSE 1023
RawExp(f, A) == IF f = 32 THEN (A[4] % 128) * 2 + A[3] \div 128 ELSE (A[8] % 128) * 16 + A[7] \div 16
Signif(f, A) == IF f = 32 THEN <<A[1], A[2], A[3] % 128, 0>> ELSE <<A[1], A[2], A[3], A[4], A[5], A[6], A[7] % 16, 0>>
WithExp(f, A, e) == IF f = 32 THEN <<A[1], A[2], (A[3] % 128) + 128 * (e % 2), (A[4] \div 128) * 128 + e \div 2>>
                    ELSE <<A[1], A[2], A[3], A[4], A[5], A[6], (A[7] % 16) + 16 * (e % 16), (A[8] \div 128) * 128 + e \div 16>>
SetTop(A, b) == [A EXCEPT ![Len(A)] = (@ % 128) + 128 * b]
Cls(f, A) == LET e == RawExp(f, A) z == Signif(f, A) = Zb(f \div 8) m == IF f = 32 THEN 255 ELSE 2047 IN
             IF e = 0 THEN (IF z THEN 1 ELSE 2) ELSE IF e = m THEN (IF z THEN 4 ELSE 3) ELSE 0
FPow2(f, e) == LET m == SigBits(f) bias == Bias(f) IN
  IF e > bias THEN WithExp(f, Zb(f \div 8), 2 * bias + 1)
  ELSE IF e >= 1 - bias THEN WithExp(f, Zb(f \div 8), e + bias)
  ELSE IF e >= 1 - bias - m THEN OneBit(e - (1 - bias - m), f \div 8)
  ELSE Zb(f \div 8)
FloorDiv(a, b) == a \div b   \* TLC rounds towards minus infinity
CeilDiv(a, b) == -((-a) \div b)
\* the integers nearest to q / d
Nearest(q, d) == {n \in {FloorDiv(q, d), CeilDiv(q, d)} : LET x == IF q - n * d < 0 THEN n * d - q ELSE q - n * d IN 2 * x <= d}

Wide(a, b) == IF a > b THEN a ELSE b
UOp(o, A, D, n) == LET x == Ext(A, 0, n) y == Ext(D, 0, n) IN
  CASE o \in {"+", "+="} -> Add(x, y) [] o \in {"-", "-="} -> Sub(x, y) [] o \in {"*", "*="} -> Mul(x, y) [] o \in {"&", "&="} -> AndB(x, y) [] o \in {"|", "|="} -> OrB(x, y)
    [] o \in {"^", "^="} -> XorB(x, y) [] o \in {"/", "/="} -> Div(x, y)
Rel(o, lt, eq) == B(CASE o = "==" -> eq [] o = "!=" -> ~eq [] o = "<" -> lt [] o = ">" -> ~lt /\ ~eq [] o = "<=" -> lt \/ eq [] o = ">=" -> ~lt)
\* width of the result: the wider operand; 8 bit products and quotients with a 64 bit number and results of assignments keep the left operand's type
ResW(o, wl, rl, wr, rr) == IF o \in Asg THEN wl ELSE IF o \in {"*", "/"} /\ ((wl = 8 /\ wr = 64 /\ rr = 1) \/ (wl = 8 /\ rl = 1 /\ wr = 64)) THEN 8 ELSE Wide(wl, wr)
\* sums, products and bit operations with a wider plain integer may be given in any width, as long as they are right in it
ResWs(o, wl, rl, wr, rr) == IF o \in Rels THEN {1}
                            ELSE IF o \notin Asg /\ rl + rr = 1 THEN {ResW(o, wl, rl, wr, rr)} \cup {x \in W : (o # "/" /\ Wide(wl, wr) # (IF rl = 1 THEN wr ELSE wl)) \/ x >= (IF rl = 1 THEN wr ELSE wl)} \* a plain integer promotes: any width, the value modulo it
                            ELSE {ResW(o, wl, rl, wr, rr)}
UCell(o, wl, wr, A, D, n) ==
  IF o \in Rels THEN <<Rel(o, Lt(A, 0, D, 0), Eq(A, 0, D, 0))>>
  ELSE SubSeq(UOp(o, A, D, Max(n, Wide(wl, wr)) \div 8), 1, n \div 8)
NatOp(o, a, b) == CASE o \in {"+", "+="} -> a + b [] o \in {"-", "-="} -> a - b [] o \in {"*", "*="} -> a * b [] o \in {"/", "/="} -> a \div b [] o \in {"%", "%="} -> a % b
NatCell(o, a, b) == IF o = "cmp" THEN <<Mask(a < b, a = b)>> ELSE LET v == NatOp(o, a, b) IN IF v >= 1 THEN <<v>> ELSE <<-1>>
SetPos(A, p) == LET q == Bits(A) IN UnBits([i \in 1..Len(q) |-> IF (i - 1) \in Ran(p) THEN 1 ELSE q[i]])
ClrPos(A, p) == LET q == Bits(A) IN UnBits([i \in 1..Len(q) |-> IF (i - 1) \in Ran(p) THEN 0 ELSE q[i]])
RECURSIVE OrAll(_)
OrAll(q) == IF q = <<>> THEN 0 ELSE Head(q) | OrAll(Tail(q))
Signed(v, n) == IF v >= 0 THEN Bytes(v, n) ELSE Neg(Bytes(-v, n))
RECURSIVE Digits(_, _)
Digits(A, n) == IF n = 20 THEN 20 ELSE IF Ltu(A, PowB(Bytes(10, 8), n)) THEN n ELSE Digits(A, n + 1)
\* results: a set of those allowed
R(o) ==
  LET k == o[1] IN
  CASE k = "cmprow" -> LET v(sg, x) == IF sg = 1 /\ x >= 128 THEN x - 256 ELSE x a == v(o[3], o[5]) IN
                       {[j \in 1..256 |-> LET b == v(o[4], j - 1) IN Mask(a < b, a = b)]}
    [] k = "cmp" -> LET bs == Cut2(o[8], o[6] \div 8) IN {[j \in 1..Len(bs) |-> CmpMask(o[5], o[4], bs[j], o[7])]}
    [] k = "inr" -> LET as == Cut2(o[6], o[4] \div 8) IN {[j \in 1..Len(as) |-> B(Fits(as[j], o[5], o[2], o[3]))]}
    [] k = "sgn" -> LET as == Cut2(o[5], o[3] \div 8) IN {[j \in 1..Len(as) |-> B(o[4] = 1 /\ MsbSet(as[j]))]}
    \* -1: there is no such operator
    [] k = "u2" -> LET bs == Cut2(o[8], o[5] \div 8) IN
                   {<<-1>>} \cup {<<n>> \o Flat([j \in 1..Len(bs) |-> UCell(o[2], o[3], o[5], o[7], bs[j], n)]) : n \in ResWs(o[2], o[3], o[4], o[5], o[6])}
    [] k = "u2row" -> {[j \in 1..256 |-> LET b == j - 1 a == o[3] IN
                         IF o[2] \in Rels THEN Rel(o[2], a < b, a = b)
                         ELSE CASE o[2] \in {"+", "+="} -> (a + b) % 256 [] o[2] \in {"-", "-="} -> (a + 256 - b) % 256 [] o[2] \in {"*", "*="} -> (a * b) % 256 [] o[2] \in {"/", "/="} -> IF b = 0 THEN 0 ELSE a \div b
                                [] o[2] \in {"&", "&="} -> a & b [] o[2] \in {"|", "|="} -> a | b [] OTHER -> a ^^ b]}
    [] k = "usub" -> {<<-1>>, <<o[3]>> \o (IF o[2] \in {"<<", "<<="} THEN Shl(o[6], o[7]) ELSE Shr(o[6], o[7]))}
    [] k = "u1" -> LET A == o[4] n == Len(A) one == Bytes(1, n) IN
                   {CASE o[2] = "~" -> NotB(A) [] o[2] = "-" -> Neg(A) [] o[2] = "+" -> A [] o[2] = "!" -> <<B(A = Zb(n))>> [] o[2] = "++" -> Add(A, one) \o Add(A, one) [] o[2] = "--" -> Sub(A, one) \o Sub(A, one)
                      [] o[2] = "p++" -> A \o Add(A, one) [] o[2] = "p--" -> A \o Sub(A, one)}
    [] k = "urot" -> {IF o[2] \in {"rotl", "rotlT"} THEN Rotl(o[4], o[5]) ELSE Rotr(o[4], o[5])}
    [] k = "ubuf" -> {SubSeq(o[3], 1, o[2] \div 8)}
    [] k = "ulit" -> {<<255, 0, 255, 255, 0, 0, 255, 255, 255, 255, 0, 255, 255, 255, 255, 255, 255, 255, 255, 0>>}
    \* the masks of the n least significant bits, n = 0, 1, 5, w - 1, w
    [] k = "umask" -> LET m(n) == Sub(IF n = o[2] THEN Zb(o[2] \div 8) ELSE OneBit(n, o[2] \div 8), Bytes(1, o[2] \div 8)) IN {m(0) \o m(1) \o m(5) \o m(o[2] - 1) \o m(o[2])}
    [] k = "nat" -> {Flat([j \in 1..Len(o[8]) |-> NatCell(o[2], o[7], o[8][j])])}
    [] k = "natrow" -> {[j \in 1..127 |-> NatCell(o[2], o[4], j)[1]]}
    \* values that do not fit into the type of the number are not generated (the driver says 2)
    [] k = "natset" -> {IF ~IsNat(o[7], o[5]) THEN <<0>> ELSE IF ~Fits(o[7], o[5], o[2], o[3]) THEN <<2>> ELSE <<1>> \o Ext(o[7], o[5], o[2] \div 8)}
    [] k = "nat1" -> {CASE o[2] = "++" -> <<1, o[5] + 1, o[5] + 1>> [] o[2] = "p++" -> <<1, o[5], o[5] + 1>> [] o[5] = 1 -> <<0, 1>> [] o[2] = "--" -> <<1, o[5] - 1, o[5] - 1>> [] o[2] = "p--" -> <<1, o[5], o[5] - 1>>}
    [] k = "mask" -> LET A == Fill(255, o[3] \div 8) IN {IF o[4] >= o[3] THEN Zb(o[3] \div 8) ELSE IF o[2] = "msb" THEN Shr(A, o[4]) ELSE Shl(A, o[4])}
    [] k = "bits" -> {CASE o[2] = "set" -> SetPos(o[5], o[6]) [] o[2] = "unset" -> ClrPos(o[5], o[6]) [] OTHER -> AndB(o[5], SetPos(Zb(Len(o[5])), o[6]))}
    [] k = "areset" -> {<<B((o[3] & OrAll(o[4])) # 0), OrAll(o[4])>>}
    [] k = "endian" -> {IF o[2] \in {"le", "nle"} THEN o[5] ELSE Rev(o[5])}
    [] k = "rev" -> {UnBits(Rev(Bits(o[3])))}
    [] k = "abs" -> {Ext(IF o[3] = 1 /\ MsbSet(o[4]) THEN Neg(o[4]) ELSE o[4], 0, 8)}
    [] k = "powi" -> {PowB(Signed(o[4], o[3] \div 8), o[5])}
    [] k = "fact" -> {Fact(o[3])}
    [] k = "tab" -> {IF o[2] = "pow2" THEN OneBit(o[3], 8) ELSE PowB(Bytes(10, 8), o[3])}
    [] k = "rnd" -> IF o[2] = "round" THEN {<<n>> : n \in Nearest(o[4], 4)} ELSE {<<IF o[2] = "floor" THEN FloorDiv(o[4], 4) ELSE CeilDiv(o[4], 4)>>}
    [] k = "rndby" -> IF o[2] = "round" THEN {<<n * o[4]>> : n \in Nearest(o[3], 4 * o[4])} ELSE {<<o[4] * (IF o[2] = "floor" THEN FloorDiv(o[3], 4 * o[4]) ELSE CeilDiv(o[3], 4 * o[4]))>>}
    [] k = "bitfn" -> LET A == o[4] IN {<<CASE o[2] = "clz" -> 8 * Len(A) - Top(A) [] o[2] = "ctz" -> Low(A) - 1 [] o[2] \in {"pop", "popS"} -> Ones(A) [] o[2] \in {"odd", "oddS"} -> A[1] % 2 [] OTHER -> 1 - (A[1] % 2)>>}
    [] k = "rup" -> {IF o[3] = Zb(Len(o[3])) THEN o[3] ELSE IF o[3] = OneBit(Top(o[3]) - 1, Len(o[3])) THEN o[3] ELSE OneBit(Top(o[3]), Len(o[3]))}
    [] k = "cdig" -> LET v == Add(o[2], Signed(o[3], 8)) IN {<<IF v = Zb(8) THEN 1 ELSE Digits(v, 1)>>}
    [] k = "conv" -> {<<IF o[2] = "tos" THEN 1 ELSE 0>> \o o[5]}
    [] k = "csign" -> LET a == IF o[3] < 0 THEN -o[3] ELSE o[3] IN {<<IF o[4] < 0 THEN -a ELSE a>>}
    [] k = "bset" -> {[i \in 1..o[3] |-> B((i - 1) \in Ran(o[4]))]}
    [] k = "flt" -> LET f == o[2] A == o[4] c == Cls(f, A) IN
                    CASE o[3] = "cls" -> {<<c>>} [] o[3] = "nan" -> {<<B(c = 3)>>} [] o[3] = "inf" -> {<<B(c = 4)>>} [] o[3] = "fin" -> {<<B(c \notin {3, 4})>>}
                      [] o[3] = "abs" -> {SetTop(A, 0)} [] o[3] = "sig" -> {Signif(f, A)} [] o[3] = "exp" -> {<<RawExp(f, A) - Bias(f)>>}
                      \* the square root of a number below zero is no number, of zero zero, of infinity infinity
                      [] OTHER -> {<<IF c = 3 \/ (MsbSet(A) /\ c \in {0, 2}) THEN 3 ELSE IF c = 4 THEN 4 ELSE IF c = 1 THEN 1 ELSE 0>>} \cup (IF MsbSet(A) /\ c = 4 THEN {<<3>>} ELSE {}) \cup (IF ~MsbSet(A) /\ c = 2 THEN {<<0>>, <<1>>, <<2>>} ELSE {})
    [] k = "fset" -> LET f == o[2] e == IF o[3] = "set" THEN o[5] + Bias(f) ELSE RawExp(f, o[4]) + o[5] m == IF f = 32 THEN 255 ELSE 2047 IN
                     IF e \in 0..m THEN {WithExp(f, o[4], e)} ELSE {<<>>}
    [] k = "fsign" -> {SetTop(o[3], o[4][Len(o[4])] \div 128)}
    [] k = "fpow2" -> {FPow2(o[2], o[3])}
    [] k = "fexp" -> {WithExp(64, o[3], RawExp(64, o[3]) + o[2])}
    [] k = "ulp" -> {Add(o[2], Signed(o[3], 8))}
    [] k = "dpow" -> {IF o[2] = "d2" THEN FPow2(64, o[3]) ELSE PowB(Bytes(10, 8), o[3])}
Expect(s, o) == R(o)
Step(s, o) == [s |-> s, r |-> CHOOSE r \in R(o) : TRUE]
\* exponents that do not fit are not judged
Post(s, o, r) == IF (o[1] = "fset" /\ R(o) = {<<>>}) \/ r \in R(o) THEN {s} ELSE {}
=============================================================================
