------------------------------ MODULE ExactGen ------------------------------
(* Cases for every operation: operands at the places where carries, borrows, *)
(* quotient corrections, reductions and ties happen.                         *)
EXTENDS Exact, Json
VARIABLES n, case
vars == <<n, case>>
R(S) == RandomElement({x \in S : n >= -1})
Pick(s) == s[R(1..Len(s))]

Exps == <<8, 16, 31, 32, 33, 52, 53, 54, 62, 63, 64, 65, 95, 96, 97, 127, 128, 129, 160, 191, 192, 256>>
Sign(x) == IF R(0..1) = 0 THEN x ELSE NNeg(x)
D4 == 100 * R(0..99) + R(0..99)
RECURSIVE Digits(_)
Digits(m) == IF m = 0 THEN <<>> ELSE <<Pick(<<0, 1, 9999, 5000, D4, D4, D4>>)>> \o Digits(m - 1)
Rnd(m) == Num(FALSE, Trim(Digits(m)))
Near2 == NAdd(Pow2(Pick(Exps)), Int_(R(-2..2)))
\* limbs of the machine's word at their edges
RECURSIVE Limbs(_, _)
Limb(w) == Pick(<<Zero, One, NSub(Pow2(w), One), NSub(Pow2(w), Two), Pow2(w - 1), NSub(Pow2(w - 1), One), NAdd(Pow2(w - 1), One), NAdd(NSub(Pow2(w), Pow2(w \div 2)), One), Rnd(R(1..(w \div 16)))>>)
Limbs(m, w) == IF m = 0 THEN Zero ELSE NAdd(NMul(Limbs(m - 1, w), Pow2(w)), Limb(w))
Words_(m) == IF R(1..4) = 1 THEN Limbs(R(1..(2 * m)), 32) ELSE Limbs(R(1..m), 64)
Mag_(m) ==
  LET p == R(1..10) IN
  CASE p = 1 -> Int_(R(0..20))
    [] p \in {2, 3} -> Near2
    [] p = 4 -> NAdd(NSub(Pow2(64 * R(1..4)), Pow2(Pick(<<1, 32, 63, 64>>))), Int_(R(0..1)))
    [] p = 5 -> NMul(NSub(Pow2(Pick(<<32, 63, 64>>)), One), Pow2(Pick(<<0, 32, 63, 64, 128>>)))
    [] p = 6 -> NAdd(Pow10(R(1..40)), Int_(R(-1..1)))
    [] p = 7 -> NMul(Rnd(R(1..m)), Near2)
    [] p = 8 -> Words_(3)
    [] OTHER -> Rnd(R(1..m))
AnyN(m) == Sign(Mag_(m))
\* a dividend with a known quotient: q * d + r with r at the edges
Dividend(d) == IF d = Zero THEN AnyN(9) ELSE Sign(NAdd(NMul(NAbs(d), Mag_(6)), Pick(<<Zero, One, NSub(NAbs(d), One), NQuo(NAbs(d), Two)>>)))
Lil == Sign(Pick(<<Int_(R(0..9)), Int_(R(1..120)), Int_((1 + D4)), Near2>>))
Den == Sign(Pick(<<Int_(R(1..9)), Int_(R(1..120)), Int_((1 + D4)), Near2>>))
Mod_ == Pick(<<One, Two, Int_(R(3..50)), Int_(97), Int_(65536), NSub(Pow2(31), One), NSub(Pow2(61), One), NSub(Pow2(64), Int_(59)), Pow2(64), Rnd(R(2..6)), Sign(Int_(R(0..3)))>>)

IntCase ==
  \E o \in {Pick(<<"add", "sub", "mul", "div", "div", "div", "div", "pow", "cmp", "neg", "abs", "odd", "i64", "bytes", "same", "same">>)} :
  CASE o = "div" /\ R(1..3) > 1 -> case' = [t |-> "int", o |-> o, a |-> <<Sign(Words_(5)), NAdd(Words_(3), Int_(R(0..1)))>>, k |-> <<0>>]
    [] o = "div" -> (\E d \in {AnyN(7)} : case' = [t |-> "int", o |-> o, a |-> <<Pick(<<AnyN(10), Dividend(d), Dividend(d)>>), Pick(<<d, d, d, d, d, d, d, Zero>>)>>, k |-> <<0>>])
    [] o = "pow" -> case' = [t |-> "int", o |-> o, a |-> <<AnyN(4), One>>, k |-> <<R(0..7)>>]
    [] o \in {"add", "sub", "cmp"} -> (\E x \in {AnyN(10)} : case' = [t |-> "int", o |-> o, a |-> <<x, Pick(<<AnyN(10), AnyN(10), x, NNeg(x), NAdd(x, One)>>)>>, k |-> <<0>>])
    [] o = "i64" -> case' = [t |-> "int", o |-> o, a |-> <<Pick(<<AnyN(6), Sign(NAdd(Pow2(63), Int_(R(-3..3))))>>), One>>, k |-> <<0>>]
    [] OTHER -> case' = [t |-> "int", o |-> o, a |-> <<AnyN(10), AnyN(9)>>, k |-> <<0>>]

RatCase ==
  \E o \in {Pick(<<"show", "floor", "ceil", "round", "round", "int", "inv", "pow", "add", "sub", "mul", "div", "cmp", "cmp", "same">>)} :
  \E d \in {Pick(<<Den, Den, Den, Mag_(4)>>)} : \E e \in {Den} :
    case' = [t |-> "rat", o |-> o,
             a |-> <<Pick(<<Lil, Dividend(d), Dividend(d), Sign(NQuo(d, Two))>>), Pick(<<d, d, d, d, d, d, d, d, d, Zero>>),
                     Pick(<<Lil, Lil, Dividend(e)>>), e>>, k |-> <<R(-4..4)>>]

\* two fractions that differ, if at all, far beyond the precision of a float
NearCase ==
  \E a \in {Pick(<<Lil, AnyN(3), AnyN(4), AnyN(5)>>)} : \E b \in {Pick(<<Int_(R(1..9)), Int_(1 + D4), NAdd(Rnd(3), One), NAdd(Rnd(4), One)>>)} :
  \E k \in {Pick(<<Pow2(R(0..60)), Int_(R(1..9)), NAdd(Rnd(4), One)>>)} : \E d \in {R(-1..1)} :
    case' = [t |-> "rat", o |-> Pick(<<"cmp", "cmp", "sub">>), a |-> <<a, b, NAdd(NMul(a, k), Int_(d)), NMul(b, k)>>, k |-> <<0>>]

DecCase ==
  \E o \in {Pick(<<"show", "add", "sub", "mul", "div", "div", "rescale", "rescale", "rescale", "ofrat", "cmp", "eq", "same">>)} :
  \E x \in {Pick(<<Lil, AnyN(5), Sign(NMul(Pow10(R(0..6)), Int_(R(0..30) * 5))), Sign(NAdd(NMul(Pow10(R(1..3)), Int_(R(0..30))), NMul(Int_(5), Pow10(R(0..2)))))>>)} : \E s \in {R(0..8)} :
    case' = [t |-> "dec", o |-> o, a |-> <<x, Pick(<<Lil, AnyN(4), NMul(x, Pow10(2)), NMul(x, Ten)>>)>>,
             k |-> <<s, Pick(<<R(0..8), s + 2, s + 1>>), R(0..9), R(1..7)>>]

\* digits to drop at, just below and just above the half-way point
TieCase ==
  \E j \in {R(1..6)} : \E t \in {R(0..4)} : \E m \in {Pick(<<Int_(R(0..30)), Int_(D4), Rnd(4)>>)} :
  \E d \in {Pick(<<Zero, One, NNeg(One), NNeg(Pow10(R(0..(j - 1)))), NNeg(Int_(R(0..5))), NNeg(Int_(R(0..5)))>>)} :
  \E x \in {Sign(NAdd(NAdd(NMul(m, Pow10(j)), NQuo(Pow10(j), Two)), d))} : \E r \in {R(1..4) = 1} :
    case' = [t |-> "dec", o |-> IF r THEN "ofrat" ELSE "rescale",
             a |-> <<x, IF r THEN Pow10(j + t) ELSE One>>, k |-> <<j + t, 0, t, R(1..7)>>]

\* parts of complex numbers stay small where they are multiplied up
Part(f) == IF f THEN Sign(Pick(<<Int_(R(0..9)), Int_(R(1..120)), Int_(1 + D4)>>)) ELSE Lil
Bot(f) == IF f THEN Sign(Pick(<<Int_(R(1..9)), Int_(R(1..120)), Int_(1 + D4)>>)) ELSE Den
CpxCase ==
  \E o \in {Pick(<<"show", "show", "add", "sub", "mul", "div", "pow", "norm", "conj", "same">>)} :
  \E f \in {o \notin {"show", "conj", "same"}} :
  case' = [t |-> "cpx", o |-> o, a |-> <<Part(f), Pick(<<One, Bot(f)>>), Pick(<<Part(f), One, NNeg(One), Zero>>), Pick(<<One, Bot(f)>>),
                                         Part(f), Pick(<<One, Bot(f)>>), Pick(<<Part(f), Zero>>), One>>, k |-> <<R(-3..4)>>]

ModCase ==
  \E o \in {Pick(<<"new", "add", "sub", "mul", "neg", "pow", "pow", "inv", "inv", "div", "other">>)} :
  case' = [t |-> "mod", o |-> o, a |-> <<AnyN(5), AnyN(4), Mod_, Pick(<<Int_(R(0..12)), Int_(D4), NSub(Pow2(R(1..63)), One), Pow2(R(0..62))>>)>>, k |-> <<0>>]

FltCase ==
  \E o \in {Pick(<<"exact", "cmpint", "cmpint", "cmprat", "same">>)} :
  \E m \in {Sign(Pick(<<Int_(R(0..40)), NSub(Pow2(53), Int_(R(1..4))), NAdd(Pow2(52), Int_(R(0..5))), Pow2(R(0..52)), Rnd(3)>>))} :
  \E e \in {Pick(<<0, 1, 10, 11, R(0..80), -1, -2, R(-80..0), -1074, 900>>)} :
  \E x \in {IF e >= 0 THEN NMul(m, Pow2(e)) ELSE NQuo(m, Pow2(-e))} :
    case' = [t |-> "flt", o |-> o, a |-> <<m, Pick(<<x, NAdd(x, One), NSub(x, One), AnyN(4), Sign(Near2)>>), Den>>, k |-> <<e>>]

WMag(w) == LET p == R(1..6) IN
  CASE p = 1 -> Int_(R(0..3)) [] p = 2 -> NSub(Pow2(w), Int_(R(1..3))) [] p = 3 -> NMod(Pow2(R(0..(w - 1))), Pow2(w))
    [] p = 4 -> NMod(NAdd(Pow2(w - 1), Int_(R(-1..1))), Pow2(w)) [] OTHER -> NMod(Rnd(6), Pow2(w))
WordCase ==
  \E o \in {Pick(<<"add", "sub", "mul", "div", "rem", "and", "or", "xor", "not", "shl", "shr", "rotl", "rotr">>)} :
  \E w \in {Pick(<<8, 16, 32, 64>>)} : \E y \in {WMag(w)} :
    case' = [t |-> "word", o |-> o, a |-> <<WMag(w), IF y = Zero /\ o \in {"div", "rem"} THEN One ELSE y>>, k |-> <<Pick(<<0, 1, w - 1, w, w + 1, R(0..200)>>), w>>]
RECURSIVE WMags(_, _)
WMags(w, m) == IF m = 0 THEN <<>> ELSE <<WMag(w)>> \o WMags(w, m - 1)
LaneCase ==
  \E w \in {Pick(<<16, 32, 64>>)} : \E m \in {CASE w = 16 -> 16 [] w = 32 -> 8 [] w = 64 -> 4} :
    case' = [t |-> "lanes", a |-> WMags(w, 2 * m),
             o |-> CASE w = 16 -> Pick(<<"add", "sub", "mul", "mulhi">>)
                     [] w = 32 -> Pick(<<"add", "sub", "and", "or", "xor", "not", "rotl">>)
                     [] w = 64 -> Pick(<<"add", "xor", "and", "andnot", "rotl", "wide">>),
             k |-> <<Pick(<<0, 1, w - 1, R(0..63)>>), w>>]

Init == n = 0 /\ case = <<>>
Next == /\ \E p \in {R(1..15)} :
             CASE p <= 4 -> IntCase [] p \in {5, 6} -> RatCase [] p = 14 -> NearCase [] p = 15 -> TieCase [] p \in {7, 8} -> DecCase [] p = 9 -> CpxCase
               [] p = 10 -> ModCase [] p = 11 -> FltCase [] p = 12 -> WordCase [] p = 13 -> LaneCase
        /\ n' = n + 1
        /\ PrintT("GEN " \o ToJson([t |-> case'.t, o |-> case'.o, a |-> case'.a, k |-> case'.k,
                                    s |-> [i \in 1..Len(case'.a) |-> NShow(case'.a[i])]]))
Spec == Init /\ [][Next]_vars
=============================================================================
