-------------------------------- MODULE Num --------------------------------
(* Integers of any size, by the arithmetic learnt at school.                *)
(* A magnitude is a sequence of digits in base 10000, least first, without  *)
(* leading zeros.  An integer is <<"I", n>> when |n| < 10^8 and otherwise   *)
(* <<"Z", negative, magnitude>>: one form per number, so = is equality.     *)
EXTENDS Integers, Sequences, TLC

Base == 10000
Small == 100000000

Dg(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))

RECURSIVE MagOf(_)
MagOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o MagOf(n \div Base)

RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Dg(a, i) + Dg(b, i) + c IN <<s % Base>> \o AddC(a, b, i + 1, s \div Base)
MAdd(a, b) == AddC(a, b, 1, 0)

RECURSIVE SubC(_, _, _, _)
SubC(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - Dg(b, i) - c IN <<s % Base>> \o SubC(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
MSub(a, b) == Trim(SubC(a, b, 1, 0))          \* a >= b

RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpAt(a, b, i - 1)
MCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpAt(a, b, Len(a))

RECURSIVE MulD(_, _, _, _)
MulD(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == a[i] * d + c IN <<s % Base>> \o MulD(a, d, i + 1, s \div Base)
Times(a, d) == IF d = 0 THEN <<>> ELSE MulD(a, d, 1, 0)

RECURSIVE MulAt(_, _, _)
MulAt(a, b, j) == IF j > Len(b) THEN <<>> ELSE MAdd(Times(a, b[j]), LET r == MulAt(a, b, j + 1) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)
MMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE MulAt(a, b, 1)

\* the largest q in lo..hi with q * b <= r
RECURSIVE QDigit(_, _, _, _)
QDigit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2 IN
       IF MCmp(Times(b, mid), r) <= 0 THEN QDigit(r, b, mid, hi) ELSE QDigit(r, b, lo, mid - 1)

\* bounds of that q from the leading digits of r and b
QFrom(r, b) ==
  LET n == Len(b) t == b[n] rt == Dg(r, n + 1) * Base + Dg(r, n)
      fine == t < 200 /\ n > 1
      y == IF fine THEN 100 * t + b[n - 1] \div 100 ELSE t
      x == IF fine THEN 100 * rt + Dg(r, n - 1) \div 100 ELSE rt
      hi == x \div y
  IN QDigit(r, b, x \div (y + 1), IF hi < Base THEN hi ELSE Base - 1)

\* long division from the most significant digit: <<quotient, remainder>>
RECURSIVE DivAt(_, _, _, _)
DivAt(a, b, i, r) ==
  IF i = 0 THEN <<<<>>, r>>
  ELSE LET r2 == Trim(<<a[i]>> \o r)
           q  == QFrom(r2, b)
           rest == DivAt(a, b, i - 1, MSub(r2, Times(b, q)))
       IN <<Append(rest[1], q), rest[2]>>
MDivMod(a, b) == LET d == DivAt(a, b, Len(a), <<>>) IN <<Trim(d[1]), d[2]>>

---------------------------------------------------------------------------
Abs(n) == IF n < 0 THEN -n ELSE n
Neg(x) == IF x[1] = "I" THEN x[2] < 0 ELSE x[2]
Mag(x) == IF x[1] = "I" THEN MagOf(Abs(x[2])) ELSE x[3]

\* the number with this sign and magnitude
Num(neg, mag) ==
  IF Len(mag) <= 2 THEN LET n == Dg(mag, 1) + Base * Dg(mag, 2) IN <<"I", IF neg THEN -n ELSE n>>
  ELSE <<"Z", neg, mag>>
Int_(n) == IF Abs(n) < Small THEN <<"I", n>> ELSE Num(n < 0, MagOf(Abs(n)))

Both(x, y) == x[1] = "I" /\ y[1] = "I"
NNeg(x) == IF x[1] = "I" THEN <<"I", -x[2]>> ELSE <<"Z", ~x[2], x[3]>>
NAdd(x, y) ==
  IF Both(x, y) THEN Int_(x[2] + y[2])
  ELSE IF Neg(x) = Neg(y) THEN Num(Neg(x), MAdd(Mag(x), Mag(y)))
  ELSE IF MCmp(Mag(x), Mag(y)) >= 0 THEN Num(Neg(x), MSub(Mag(x), Mag(y)))
  ELSE Num(Neg(y), MSub(Mag(y), Mag(x)))
NSub(x, y) == NAdd(x, NNeg(y))
NMul(x, y) ==
  IF Both(x, y) /\ Abs(x[2]) <= 20000 /\ Abs(y[2]) <= 20000 THEN Int_(x[2] * y[2])
  ELSE Num(Neg(x) # Neg(y), MMul(Mag(x), Mag(y)))
\* division truncates toward zero; the remainder has the dividend's sign
NQuo(x, y) == IF Both(x, y) THEN LET q == Abs(x[2]) \div Abs(y[2]) IN Int_(IF (x[2] < 0) # (y[2] < 0) THEN -q ELSE q)
              ELSE Num(Neg(x) # Neg(y), MDivMod(Mag(x), Mag(y))[1])
NRem(x, y) == IF Both(x, y) THEN LET r == Abs(x[2]) % Abs(y[2]) IN Int_(IF x[2] < 0 THEN -r ELSE r)
              ELSE Num(Neg(x), MDivMod(Mag(x), Mag(y))[2])
\* floor division
NFloor(x, y) == LET q == NQuo(x, y) r == NRem(x, y) IN IF r # <<"I", 0>> /\ (Neg(x) # Neg(y)) THEN NSub(q, <<"I", 1>>) ELSE q
NCmp(x, y) ==
  IF Both(x, y) THEN (IF x[2] < y[2] THEN -1 ELSE IF x[2] > y[2] THEN 1 ELSE 0)
  ELSE IF Neg(x) # Neg(y) THEN (IF Neg(x) THEN -1 ELSE 1)
  ELSE IF Neg(x) THEN MCmp(Mag(y), Mag(x)) ELSE MCmp(Mag(x), Mag(y))
RECURSIVE NPow(_, _)
NPow(x, n) == IF n = 0 THEN <<"I", 1>>
              ELSE IF n % 2 = 0 THEN LET h == NPow(x, n \div 2) IN NMul(h, h) ELSE NMul(x, NPow(x, n - 1))

Pad4(n) == IF n < 10 THEN "000" \o ToString(n) ELSE IF n < 100 THEN "00" \o ToString(n) ELSE IF n < 1000 THEN "0" \o ToString(n) ELSE ToString(n)
RECURSIVE ShowAt(_, _)
ShowAt(m, i) == IF i = 0 THEN "" ELSE Pad4(m[i]) \o ShowAt(m, i - 1)
NShow(x) == IF x[1] = "I" THEN ToString(x[2])
            ELSE (IF x[2] THEN "-" ELSE "") \o ToString(x[3][Len(x[3])]) \o ShowAt(x[3], Len(x[3]) - 1)
=============================================================================
