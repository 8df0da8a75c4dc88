------------------------------- MODULE Exact -------------------------------
(* What every operation on exact numbers answers, as text.                  *)
(* A case is [t, o, a, k]: the kind of number, the operation, the integer   *)
(* operands (of any size) and small plain parameters.                       *)
EXTENDS Num

Zero == <<"I", 0>>
One == <<"I", 1>>
Two == <<"I", 2>>
Ten == <<"I", 10>>
NAbs(x) == IF Neg(x) THEN NNeg(x) ELSE x
Even(x) == NRem(x, Two) = Zero
None == "none"

RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = Zero THEN NAbs(x) ELSE Gcd(y, NRem(x, y))
NMod(x, m) == LET r == NRem(x, m) IN IF Neg(r) THEN NAdd(r, m) ELSE r       \* m > 0

Order(c) == IF c < 0 THEN "<" ELSE IF c > 0 THEN ">" ELSE "="

---------------------------------------------------------------------------
(* Rationals: <<numerator, denominator>>, reduced, denominator positive. *)
Rat(n, d) == LET g == Gcd(n, d) s == IF Neg(d) THEN NNeg(g) ELSE g IN <<NQuo(n, s), NQuo(d, s)>>
Whole(n) == <<n, One>>
RShow(r) == IF r[2] = One THEN NShow(r[1]) ELSE NShow(r[1]) \o "/" \o NShow(r[2])
RAdd(x, y) == Rat(NAdd(NMul(x[1], y[2]), NMul(y[1], x[2])), NMul(x[2], y[2]))
RNeg(x) == <<NNeg(x[1]), x[2]>>
RSub(x, y) == RAdd(x, RNeg(y))
RMul(x, y) == Rat(NMul(x[1], y[1]), NMul(x[2], y[2]))
RInv(x) == Rat(x[2], x[1])
RCmp(x, y) == NCmp(NMul(x[1], y[2]), NMul(y[1], x[2]))
RPow(x, n) == IF n >= 0 THEN <<NPow(x[1], n), NPow(x[2], n)>> ELSE RInv(<<NPow(x[1], -n), NPow(x[2], -n)>>)
RFloor(x) == NFloor(x[1], x[2])
RCeil(x) == NNeg(RFloor(RNeg(x)))

\* the neighbouring integer the rounding mode picks
Round(x, mode) ==
  LET lo == RFloor(x) up == NAdd(lo, One) neg == Neg(x[1])
      half == NCmp(NMul(Two, NSub(x[1], NMul(lo, x[2]))), x[2]) IN
  IF x[2] = One THEN x[1]
  ELSE CASE mode = "Floor" -> lo
         [] mode = "Ceiling" -> up
         [] mode = "Down" -> (IF neg THEN up ELSE lo)
         [] mode = "Up" -> (IF neg THEN lo ELSE up)
         [] half < 0 -> lo
         [] half > 0 -> up
         [] mode = "HalfUp" -> (IF neg THEN lo ELSE up)
         [] mode = "HalfDown" -> (IF neg THEN up ELSE lo)
         [] mode = "HalfEven" -> (IF Even(lo) THEN lo ELSE up)
Modes == <<"Down", "Up", "Floor", "Ceiling", "HalfUp", "HalfDown", "HalfEven">>

---------------------------------------------------------------------------
(* Decimals: <<coefficient, scale>>. *)
P10 == [i \in 0..60 |-> NPow(Ten, i)]
Pow10(n) == IF n <= 60 THEN P10[n] ELSE NPow(Ten, n)
DRat(d) == Rat(d[1], Pow10(d[2]))
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
DShow(d) ==
  IF d[2] = 0 THEN NShow(d[1])
  ELSE LET frac == NShow(NRem(NAbs(d[1]), Pow10(d[2]))) IN
       (IF Neg(d[1]) THEN "-" ELSE "") \o NShow(NQuo(NAbs(d[1]), Pow10(d[2]))) \o "." \o Zeros(d[2] - Len(frac)) \o frac
At(d, s) == NMul(d[1], Pow10(s - d[2]))
Wider(x, y) == IF x[2] > y[2] THEN x[2] ELSE y[2]
DAdd(x, y) == LET s == Wider(x, y) IN <<NAdd(At(x, s), At(y, s)), s>>
DSub(x, y) == DAdd(x, <<NNeg(y[1]), y[2]>>)
DOf(r, s, mode) == <<Round(RMul(r, Whole(Pow10(s))), mode), s>>

---------------------------------------------------------------------------
(* Complex numbers: <<real, imaginary>>. *)
CAdd(x, y) == <<RAdd(x[1], y[1]), RAdd(x[2], y[2])>>
CSub(x, y) == <<RSub(x[1], y[1]), RSub(x[2], y[2])>>
CMul(x, y) == <<RSub(RMul(x[1], y[1]), RMul(x[2], y[2])), RAdd(RMul(x[1], y[2]), RMul(x[2], y[1]))>>
Norm(x) == RAdd(RMul(x[1], x[1]), RMul(x[2], x[2]))
CZero(x) == x[1][1] = Zero /\ x[2][1] = Zero
CInv(x) == LET n == RInv(Norm(x)) IN <<RMul(x[1], n), RMul(RNeg(x[2]), n)>>
RECURSIVE CPow(_, _)
CPow(x, n) == IF n < 0 THEN CPow(CInv(x), -n) ELSE IF n = 0 THEN <<Whole(One), Whole(Zero)>> ELSE CMul(x, CPow(x, n - 1))
CShow(x) ==
  LET re == x[1] im == x[2] neg == Neg(im[1]) mag == IF neg THEN RNeg(im) ELSE im
      coeff == (IF mag = Whole(One) THEN "" ELSE RShow(mag)) \o "i" IN
  IF im[1] = Zero THEN RShow(re)
  ELSE IF re[1] = Zero THEN (IF neg THEN "-" ELSE "") \o coeff
  ELSE RShow(re) \o (IF neg THEN "-" ELSE "+") \o coeff

---------------------------------------------------------------------------
(* Residues: <<value, modulus>>. *)
MShow(v, m) == NShow(v) \o " (mod " \o NShow(m) \o ")"
RECURSIVE MPow(_, _, _)
MPow(v, e, m) == IF e = Zero THEN NMod(One, m)
                 ELSE LET h == MPow(v, NQuo(e, Two), m) s == NMod(NMul(h, h), m) IN IF Even(e) THEN s ELSE NMod(NMul(s, v), m)
RECURSIVE Bezout(_, _, _, _)
Bezout(r0, r1, s0, s1) == IF r1 = Zero THEN <<r0, s0>> ELSE LET q == NQuo(r0, r1) IN Bezout(r1, NSub(r0, NMul(q, r1)), s1, NSub(s0, NMul(q, s1)))
MInv(v, m) == LET b == Bezout(v, m, One, Zero) IN IF NAbs(b[1]) # One THEN <<>> ELSE NMod(NMul(b[1], b[2]), m)

---------------------------------------------------------------------------
(* Words: integers modulo 2^w. *)
P2 == [i \in 0..260 |-> NPow(Two, i)]
Pow2(n) == IF n <= 260 THEN P2[n] ELSE NPow(Two, n)
Chunk == Int_(65536)
RECURSIVE SmallBits(_, _, _, _)
SmallBits(o, x, y, n) ==
  IF n = 0 THEN 0
  ELSE LET p == x % 2 q == y % 2 IN
       (CASE o = "and" -> p * q [] o = "or" -> (IF p + q > 0 THEN 1 ELSE 0) [] o = "xor" -> (p + q) % 2)
       + 2 * SmallBits(o, x \div 2, y \div 2, n - 1)
RECURSIVE Bitwise(_, _, _, _)
Bitwise(o, x, y, w) ==
  IF w <= 0 THEN Zero
  ELSE NAdd(Int_(SmallBits(o, NRem(x, Chunk)[2], NRem(y, Chunk)[2], 16)),
            NMul(Chunk, Bitwise(o, NQuo(x, Chunk), NQuo(y, Chunk), w - 16)))
Rotl(x, n, w) == LET k == n % w IN NAdd(NMod(NMul(x, Pow2(k)), Pow2(w)), NQuo(x, Pow2(w - k)))
Signed(x, w) == IF NCmp(x, Pow2(w - 1)) >= 0 THEN NSub(x, Pow2(w)) ELSE x
WordOp(o, x, y, n, w) ==
  LET m == Pow2(w) IN
  CASE o = "add" -> NMod(NAdd(x, y), m)
    [] o = "sub" -> NMod(NSub(x, y), m)
    [] o = "mul" -> NMod(NMul(x, y), m)
    [] o = "div" -> NQuo(x, y)
    [] o = "rem" -> NRem(x, y)
    [] o \in {"and", "or", "xor"} -> Bitwise(o, x, y, w)
    [] o = "not" -> NSub(NSub(m, One), x)
    [] o = "andnot" -> Bitwise("and", NSub(NSub(m, One), x), y, w)
    [] o = "shl" -> NMod(NMul(x, Pow2(n % w)), m)
    [] o = "shr" -> NQuo(x, Pow2(n % w))
    [] o = "rotl" -> Rotl(x, n, w)
    [] o = "rotr" -> Rotl(x, w - (n % w), w)
    [] o = "mulhi" -> NMod(NFloor(NMul(Signed(x, w), Signed(y, w)), m), m)
    [] o = "wide" -> NMul(NRem(x, Pow2(32)), NRem(y, Pow2(32)))

---------------------------------------------------------------------------
MaxI == NSub(Pow2(63), One)
MinI == NNeg(Pow2(63))
FitsI(x) == NCmp(x, MaxI) <= 0 /\ NCmp(x, MinI) >= 0

IntAnswer(o, a, k) ==
  LET x == a[1] y == a[2] IN
  CASE o = "add" -> NShow(NAdd(x, y))
    [] o = "sub" -> NShow(NSub(x, y))
    [] o = "mul" -> NShow(NMul(x, y))
    [] o = "div" -> (IF y = Zero THEN None ELSE NShow(NQuo(x, y)) \o " " \o NShow(NRem(x, y)))
    [] o = "pow" -> NShow(NPow(x, k[1]))
    [] o = "cmp" -> Order(NCmp(x, y))
    [] o = "neg" -> NShow(NNeg(x))
    [] o = "abs" -> NShow(NAbs(x))
    [] o = "odd" -> (IF Even(x) THEN "even" ELSE "odd")
    [] o = "i64" -> (IF FitsI(x) THEN NShow(x) ELSE None)
    [] o = "bytes" -> NShow(x)
    [] o = "same" -> "true"

RatAnswer(o, a, k) ==
  IF a[2] = Zero THEN None
  ELSE LET x == Rat(a[1], a[2]) IN
  CASE o = "show" -> RShow(x)
    [] o = "floor" -> NShow(RFloor(x))
    [] o = "ceil" -> NShow(RCeil(x))
    [] o = "round" -> NShow(Round(x, "HalfUp"))
    [] o = "int" -> (IF x[2] = One THEN NShow(x[1]) ELSE None)
    [] o = "inv" -> (IF x[1] = Zero THEN None ELSE RShow(RInv(x)))
    [] o = "pow" -> (IF x[1] = Zero /\ k[1] < 0 THEN None ELSE RShow(RPow(x, k[1])))
    [] a[4] = Zero -> None
    [] OTHER ->
       LET y == Rat(a[3], a[4]) IN
       CASE o = "add" -> RShow(RAdd(x, y))
         [] o = "sub" -> RShow(RSub(x, y))
         [] o = "mul" -> RShow(RMul(x, y))
         [] o = "div" -> (IF y[1] = Zero THEN None ELSE RShow(RMul(x, RInv(y))))
         [] o = "cmp" -> Order(RCmp(x, y))
         [] o = "same" -> "true"

DecAnswer(o, a, k) ==
  LET x == <<a[1], k[1]>> y == <<a[2], k[2]>> mode == Modes[k[4]] IN
  CASE o = "show" -> DShow(x)
    [] o = "add" -> DShow(DAdd(x, y))
    [] o = "sub" -> DShow(DSub(x, y))
    [] o = "mul" -> DShow(<<NMul(x[1], y[1]), x[2] + y[2]>>)
    [] o = "div" -> (IF y[1] = Zero THEN None ELSE DShow(DOf(RMul(DRat(x), RInv(DRat(y))), k[3], mode)))
    [] o = "rescale" -> DShow(DOf(DRat(x), k[3], mode))
    [] o = "ofrat" -> (IF y[1] = Zero THEN None ELSE DShow(DOf(Rat(x[1], y[1]), k[3], mode)))
    [] o = "cmp" -> Order(RCmp(DRat(x), DRat(y)))
    [] o = "eq" -> (IF DRat(x) = DRat(y) THEN "true" ELSE "false")
    [] o = "same" -> "true"

CpxAnswer(o, a, k) ==
  LET x == <<Rat(a[1], a[2]), Rat(a[3], a[4])>> y == <<Rat(a[5], a[6]), Rat(a[7], a[8])>> IN
  CASE o = "show" -> CShow(x)
    [] o = "add" -> CShow(CAdd(x, y))
    [] o = "sub" -> CShow(CSub(x, y))
    [] o = "mul" -> CShow(CMul(x, y))
    [] o = "div" -> (IF CZero(y) THEN None ELSE CShow(CMul(x, CInv(y))))
    [] o = "pow" -> (IF CZero(x) /\ k[1] < 0 THEN None ELSE CShow(CPow(x, k[1])))
    [] o = "norm" -> RShow(Norm(x))
    [] o = "conj" -> CShow(<<x[1], RNeg(x[2])>>)
    [] o = "same" -> "true"

ModAnswer(o, a, k) ==
  LET m == a[3] IN
  IF m = Zero \/ Neg(m) THEN None
  ELSE LET x == NMod(a[1], m) y == NMod(a[2], m) IN
  CASE o = "new" -> MShow(x, m)
    [] o = "add" -> MShow(NMod(NAdd(x, y), m), m)
    [] o = "sub" -> MShow(NMod(NSub(x, y), m), m)
    [] o = "mul" -> MShow(NMod(NMul(x, y), m), m)
    [] o = "neg" -> MShow(NMod(NNeg(x), m), m)
    [] o = "pow" -> MShow(MPow(x, a[4], m), m)
    [] o = "inv" -> (LET i == MInv(x, m) IN IF i = <<>> THEN None ELSE MShow(i, m))
    [] o = "div" -> (LET i == MInv(y, m) IN IF i = <<>> THEN None ELSE MShow(NMod(NMul(x, i), m), m))
    [] o = "other" -> None                      \* operands of different moduli

\* a float is a[1] * 2^k[1]
FltAnswer(o, a, k) ==
  LET x == IF k[1] >= 0 THEN Whole(NMul(a[1], Pow2(k[1]))) ELSE Rat(a[1], Pow2(-k[1])) IN
  CASE o = "exact" -> RShow(x)
    [] o = "cmpint" -> Order(RCmp(Whole(a[2]), x))
    [] o = "cmprat" -> Order(RCmp(Rat(a[2], a[3]), x))
    [] o = "same" -> "true"

RECURSIVE Lanes(_, _, _, _, _)
Lanes(o, a, n, w, i) ==
  LET h == Len(a) \div 2 IN
  IF i > h THEN "" ELSE (IF i = 1 THEN "" ELSE " ") \o NShow(WordOp(o, a[i], a[h + i], n, w)) \o Lanes(o, a, n, w, i + 1)

Answer(c) ==
  CASE c.t = "int" -> IntAnswer(c.o, c.a, c.k)
    [] c.t = "rat" -> RatAnswer(c.o, c.a, c.k)
    [] c.t = "dec" -> DecAnswer(c.o, c.a, c.k)
    [] c.t = "cpx" -> CpxAnswer(c.o, c.a, c.k)
    [] c.t = "mod" -> ModAnswer(c.o, c.a, c.k)
    [] c.t = "flt" -> FltAnswer(c.o, c.a, c.k)
    [] c.t = "word" -> NShow(WordOp(c.o, c.a[1], c.a[2], c.k[1], c.k[2]))
    [] c.t = "lanes" -> Lanes(c.o, c.a, c.k[1], c.k[2], 1)
=============================================================================
