------------------------------ MODULE ReachGen ------------------------------
(* Transition systems of many kinds, as formulas. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES n, case
vars == <<n, case>>
R(S) == RandomElement({x \in S : n >= -1})
A(i) == <<"a", i>>
B(i) == <<"b", i>>
Not(x) == <<"not", x>>
And(x, y) == <<"and", x, y>>
Or(x, y) == <<"or", x, y>>
Iff(x, y) == <<"iff", x, y>>
If(x, y) == <<"if", x, y>>
\* a formula of depth d over v signals; two: whether it may look one step ahead
RECURSIVE F(_, _, _)
F(d, v, two) ==
  CASE d = 0 -> IF two /\ R(1..2) = 1 THEN B(R(1..v)) ELSE A(R(1..v))
    [] R(1..5) = 1 -> Not(F(d - 1, v, two))
    [] R(1..6) = 1 -> F(0, v, two)
    [] R(1..3) = 1 -> And(F(d - 1, v, two), F(d - 1, v, two))
    [] R(1..3) = 1 -> Or(F(d - 1, v, two), F(d - 1, v, two))
    [] R(1..2) = 1 -> Iff(F(d - 1, v, two), F(d - 1, v, two))
    [] OTHER -> If(F(d - 1, v, two), F(d - 1, v, two))
RECURSIVE Fold(_, _)
Fold(q, i) == IF i = Len(q) THEN q[i] ELSE And(q[i], Fold(q, i + 1))
Is_(i, b) == IF b = 1 THEN A(i) ELSE Not(A(i))
Bits(v, x) == [i \in 1..v |-> (x \div (IF i = 1 THEN 1 ELSE IF i = 2 THEN 2 ELSE IF i = 3 THEN 4 ELSE 8)) % 2]
At(v, x) == LET b == Bits(v, x) IN Fold([i \in 1..v |-> Is_(i, b[i])], 1)
\* next value of each signal given by a formula
Functional(v, d) == Fold([i \in 1..v |-> Iff(B(i), F(d, v, FALSE))], 1)
\* counting up: a signal turns when all below it are on
RECURSIVE Below(_, _)
Below(i, j) == IF j = i - 1 THEN A(j) ELSE And(A(j), Below(i, j + 1))
Counter(v) == Fold([i \in 1..v |-> IF i = 1 THEN Iff(B(1), Not(A(1))) ELSE Iff(B(i), Iff(Below(i, 1), Not(A(i))))], 1)
\* the same for every signal: what signal i does depends on itself and on all or some of the others
RECURSIVE AllA(_, _), AnyA(_, _)
AllA(v, i) == IF i = v THEN A(i) ELSE And(A(i), AllA(v, i + 1))
AnyA(v, i) == IF i = v THEN A(i) ELSE Or(A(i), AnyA(v, i + 1))
\* w chooses among the local rules
Local(w, i, v) ==
  CASE w = 1 -> Iff(B(i), Not(A(i)))
    [] w = 2 -> Iff(B(i), Or(A(i), AnyA(v, 1)))
    [] w = 3 -> If(A(i), B(i))
    [] w = 4 -> If(B(i), Or(A(i), Not(AnyA(v, 1))))
    [] w = 5 -> Iff(B(i), Iff(A(i), AllA(v, 1)))
    [] w = 6 -> Iff(B(i), A(i))
    [] OTHER -> Or(B(i), A(i))
Rule(w, v) == Fold([i \in 1..v |-> Local(w, i, v)], 1)
AtMostOne(v) == Fold([i \in 1..(v - 1) |-> Fold([j \in 1..(v - i) |-> Not(And(A(i), A(i + j)))], 1)], 1)
Uniform(v) == CASE R(1..5) = 1 -> AllA(v, 1) [] R(1..4) = 1 -> AnyA(v, 1) [] R(1..3) = 1 -> Not(AllA(v, 1)) [] R(1..2) = 1 -> Not(AnyA(v, 1)) [] OTHER -> AtMostOne(v)
\* rules for all but the last signal, which goes its own way
Mixed(w, v) == And(Rule(w, v - 1), F(2, v, TRUE))
\* a walk along a few edges
RECURSIVE Graph(_, _)
Next_(x) == CASE x[1] = "a" -> B(x[2]) [] x[1] = "not" -> Not(B(x[2][2])) [] OTHER -> x
RECURSIVE Ahead(_)
Ahead(e) == IF e[1] = "and" THEN And(Ahead(e[2]), Ahead(e[3])) ELSE Next_(e)
Graph(k, v) == LET e == And(At(v, R(0..(IF v = 3 THEN 7 ELSE 15))), Ahead(At(v, R(0..(IF v = 3 THEN 7 ELSE 15))))) IN
               IF k = 1 THEN e ELSE Or(e, Graph(k - 1, v))
\* interchangeable signals that change places or turn over while the others count the steps
Differ(w) == IF w = 2 THEN Iff(A(1), Not(A(2))) ELSE And(AnyA(w, 1), IF R(1..2) = 1 THEN AtMostOne(w) ELSE Not(AllA(w, 1)))
Swap == And(Iff(B(1), A(2)), Iff(B(2), A(1)))
Turn(w) == CASE w = 2 /\ R(1..2) = 1 -> Swap [] R(1..2) = 1 -> Rule(1, w) [] OTHER -> Rule(R(1..7), w)
Clock(w, v) == Fold([i \in 1..(v - w) |-> IF i = 1 THEN Iff(B(w + 1), Not(A(w + 1))) ELSE Iff(B(w + 2), Iff(A(w + 1), Not(A(w + 2))))], 1)
Hand(w, v, x) == Fold([i \in 1..(v - w) |-> Is_(w + i, (x \div i) % 2)], 1)
Paired(w, v) == [kind |-> "paired", n |-> v, init |-> And(Differ(w), Hand(w, v, 0)), trans |-> And(Turn(w), Clock(w, v)),
                 prop |-> Not(IF R(1..2) = 1 THEN Hand(w, v, R(0..3)) ELSE And(Uniform(w), Hand(w, v, R(0..3))))]
Top(v) == IF v = 1 THEN 1 ELSE IF v = 2 THEN 3 ELSE IF v = 3 THEN 7 ELSE 15
Sys(v) ==
  CASE R(1..6) = 1 -> [kind |-> "any", n |-> v, init |-> F(2, v, FALSE), trans |-> F(3, v, TRUE), prop |-> F(2, v, FALSE)]
    [] R(1..5) = 1 -> [kind |-> "function", n |-> v, init |-> At(v, R(0..Top(v))), trans |-> Functional(v, 2), prop |-> F(2, v, FALSE)]
    [] R(1..5) = 1 -> [kind |-> "counter", n |-> v, init |-> At(v, R(0..Top(v))), trans |-> Counter(v), prop |-> Not(At(v, R(0..Top(v))))]
    [] R(1..3) = 1 -> [kind |-> "alike", n |-> v, init |-> Uniform(v), trans |-> Rule(R(1..7), v), prop |-> Uniform(v)]
    [] R(1..3) = 1 -> [kind |-> "alike", n |-> v, init |-> Uniform(v), trans |-> Or(Rule(R(1..7), v), Rule(R(1..7), v)), prop |-> Uniform(v)]
    [] R(1..2) = 1 /\ v > 1 -> [kind |-> "mixed", n |-> v, init |-> F(1, v, FALSE), trans |-> Mixed(R(1..7), v), prop |-> IF R(1..2) = 1 THEN Uniform(v) ELSE F(1, v, FALSE)]
    [] OTHER -> [kind |-> "graph", n |-> v, init |-> At(v, R(0..Top(v))), trans |-> Graph(R(2..7), v), prop |-> Not(At(v, R(0..Top(v))))]
Gen == CASE R(1..7) = 1 -> Paired(2, R(3..4)) [] R(1..12) = 1 -> Paired(3, 4) [] OTHER -> (LET v == R(2..4) IN Sys(v))
Init == n = 0 /\ case = <<>>
Next == /\ n' = n + 1
        /\ \E c \in {Gen} : \E most \in {R(0..9)} : \E k \in {R(0..4)} :
             /\ case' = c
             /\ PrintT("GEN " \o ToJson([m |-> c, most |-> IF c.kind = "counter" THEN most + 8 ELSE most, k |-> k]))
Spec == Init /\ [][Next]_vars
=============================================================================
