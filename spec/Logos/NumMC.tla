------------------------------- MODULE NumMC -------------------------------
(* The digit arithmetic of Num against TLC's own integers where those reach, *)
(* and against the laws of arithmetic where they do not.                     *)
EXTENDS Num
VARIABLES a, b
vars == <<a, b>>

Little == {0, 1, 2, 3, 7, 10, 99, 100, 9998, 9999, 10000, 10001, 12345, 19999, 20000, 40000, 46340}
Wide == {99999999, 100000000, 100000001, 123456789, 999999999, 2147483647}
Huge == {Num(FALSE, <<9999, 9999, 9999>>), Num(FALSE, <<0, 0, 0, 1>>), Num(FALSE, <<1, 0, 0, 0, 1>>),
         Num(FALSE, <<5807, 5477, 7203, 2233, 922>>), Num(FALSE, <<5808, 5477, 7203, 2233, 922>>),
         Num(FALSE, <<1616, 955, 737, 6744, 1844>>), Num(FALSE, <<7, 0, 9999, 0, 9999, 3>>)}
Plain == Little \cup Wide
Values == {Int_(n) : n \in Plain} \cup Huge
Signed == Values \cup {NNeg(x) : x \in Values}

Init == a \in Signed /\ b \in Signed
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Zero == <<"I", 0>>
\* magnitudes, where TLC can compute them itself
Digits ==
  \A x \in {a} : \A y \in {b} :
    (x[1] = "I" /\ y[1] = "I" /\ x[2] >= 0 /\ y[2] >= 0 /\ x[2] <= 46340 /\ y[2] <= 46340) =>
      /\ MAdd(MagOf(x[2]), MagOf(y[2])) = MagOf(x[2] + y[2])
      /\ x[2] >= y[2] => MSub(MagOf(x[2]), MagOf(y[2])) = MagOf(x[2] - y[2])
      /\ MMul(MagOf(x[2]), MagOf(y[2])) = MagOf(x[2] * y[2])
      /\ y[2] # 0 => MDivMod(MagOf(x[2]), MagOf(y[2])) = <<MagOf(x[2] \div y[2]), MagOf(x[2] % y[2])>>
      /\ MCmp(MagOf(x[2]), MagOf(y[2])) = (IF x[2] < y[2] THEN -1 ELSE IF x[2] > y[2] THEN 1 ELSE 0)
Laws ==
  /\ NAdd(a, b) = NAdd(b, a) /\ NMul(a, b) = NMul(b, a)
  /\ NSub(NAdd(a, b), b) = a /\ NSub(a, a) = Zero
  /\ NMul(NAdd(a, b), NSub(a, b)) = NSub(NMul(a, a), NMul(b, b))
  /\ NPow(NAdd(a, b), 2) = NAdd(NAdd(NMul(a, a), NMul(<<"I", 2>>, NMul(a, b))), NMul(b, b))
  /\ (NCmp(a, b) = 0) = (a = b) /\ NCmp(a, b) = -NCmp(b, a)
  /\ (NCmp(a, b) < 0) = Neg(NSub(a, b))
Division ==
  b # Zero =>
    LET q == NQuo(a, b) r == NRem(a, b) f == NFloor(a, b) m == NSub(a, NMul(f, b)) IN
    /\ NAdd(NMul(q, b), r) = a
    /\ MCmp(Mag(r), Mag(b)) < 0
    /\ r = Zero \/ Neg(r) = Neg(a)
    /\ m = Zero \/ Neg(m) = Neg(b)
    /\ MCmp(Mag(m), Mag(b)) < 0
Text ==
  /\ (NShow(a) = NShow(b)) = (a = b)
=============================================================================
