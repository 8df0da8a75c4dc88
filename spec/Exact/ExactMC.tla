------------------------------ MODULE ExactMC ------------------------------
(* The definitions of Exact against the laws that determine them. *)
EXTENDS Exact
VARIABLES a, b, c
vars == <<a, b, c>>
Ints == {Int_(n) : n \in {-7, -2, 0, 1, 3, 5}} \cup {Pow2(64)}
Dens == {Int_(n) : n \in {-6, 1, 2}} \cup {Pow2(32)}
Rats == {Rat(n, d) : n \in Ints, d \in Dens}
Third == {Rat(Int_(n), Int_(d)) : n \in {-5}, d \in {1, 2}}
Init == a \in Rats /\ b = Whole(One) /\ c = Whole(Zero)
Next == c = Whole(Zero) /\ b' \in Rats /\ c' \in Third /\ UNCHANGED a
Tiny(r) == r[1][1] = "I" /\ r[2][1] = "I"
Spec == Init /\ [][Next]_vars

RZ == Whole(Zero)
Reduced(r) == ~Neg(r[2]) /\ r[2] # Zero /\ Gcd(r[1], r[2]) = One
Field ==
  /\ Reduced(a) /\ Reduced(RAdd(a, b)) /\ Reduced(RMul(a, b))
  /\ RMul(a, RAdd(b, c)) = RAdd(RMul(a, b), RMul(a, c))
  /\ RSub(RAdd(a, b), b) = a
  /\ b # RZ => RMul(RMul(a, b), RInv(b)) = a
  /\ (RCmp(a, b) = 0) = (a = b) /\ (RCmp(a, b) < 0) = Neg(RSub(a, b)[1])
Rounding ==
  LET f == RFloor(a) IN
  /\ RCmp(Whole(f), a) <= 0 /\ RCmp(a, Whole(NAdd(f, One))) < 0
  /\ \A i \in 1..7 :
       LET r == Round(a, Modes[i]) err == RSub(Whole(r), a) e == IF Neg(err[1]) THEN RNeg(err) ELSE err IN
       /\ RCmp(e, Whole(One)) < 0
       /\ i >= 5 => RCmp(e, Rat(One, Two)) <= 0
       /\ i = 1 => RCmp(RMul(Whole(r), Whole(r)), RMul(a, a)) <= 0
       /\ i = 2 => RCmp(RMul(Whole(r), Whole(r)), RMul(a, a)) >= 0
       /\ (i = 7 /\ e = Rat(One, Two)) => Even(r)
       /\ (a[2] = One) => r = a[1]
Cpx ==
  Tiny(a) /\ Tiny(b) => LET x == <<a, b>> y == <<c, RAdd(a, c)>> IN
  /\ Norm(CMul(x, y)) = RMul(Norm(x), Norm(y))
  /\ ~CZero(y) => CMul(CMul(x, y), CInv(y)) = x
  /\ CPow(x, 3) = CMul(x, CMul(x, x))
Residues ==
  a[2] = One /\ b[2] = One /\ ~Neg(b[1]) /\ b[1] # Zero =>
    LET m == b[1] v == NMod(a[1], m) i == MInv(v, m) IN
    /\ ~Neg(v) /\ NCmp(v, m) < 0 /\ NMod(NSub(a[1], v), m) = Zero
    /\ (i = <<>>) = (Gcd(v, m) # One)
    /\ i # <<>> => NMod(NMul(v, i), m) = NMod(One, m)
    /\ MPow(v, Int_(5), m) = NMod(NPow(v, 5), m)
Words ==
  \A w \in {8, 64} :
    LET m == Pow2(w) x == NMod(a[1], m) y == NMod(b[1], m) IN
    /\ NAdd(WordOp("and", x, y, 0, w), WordOp("or", x, y, 0, w)) = NAdd(x, y)
    /\ WordOp("xor", WordOp("xor", x, y, 0, w), y, 0, w) = x
    /\ WordOp("rotr", WordOp("rotl", x, Zero, 13, w), Zero, 13, w) = x
    /\ WordOp("add", WordOp("sub", x, y, 0, w), y, 0, w) = x
=============================================================================
